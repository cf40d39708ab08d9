EQ = "qampy/core/equalisation/pythran_equalisation.py"
DSP = "qampy/core/pythran_dsp.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


bug("c01-shared-window", "C01", "two worker threads training different modes at the same time (complex-valued methods)",
    "the window of samples is copied to a buffer that all threads share, so a mode is trained with the samples another thread is looking at",
    [(EQ, """                X = E[:, i * os:i * os + ntaps]
                Xest = apply_filter(X,  wx[mode])
                err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                #wx""", """                for k in range(nmodes):
                    for n in range(ntaps):
                        X[k, n] = E[k, i * os + n]
                Xest = apply_filter(X,  wx[mode])
                err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                #wx"""),
     (EQ, """    if os == 1:
        TrSyms == E.shape[1] - ntaps
""", """    X = np.zeros((nmodes, ntaps), dtype=E.dtype) # contiguous copy of the window, allocated once
""")],
    """
import numpy as np
from qampy.core.equalisation import equalise_signal
rng = np.random.RandomState(1)
bad = 0
for k in range(40):
    E = (rng.randn(3, 6000) + 1j*rng.randn(3, 6000))/np.sqrt(2)
    both, err = equalise_signal(E, 2, 1e-3, 4, Ntaps=11, method="mcma")
    for m in range(3):
        one, e1 = equalise_signal(E, 2, 1e-3, 4, Ntaps=11, method="mcma", modes=np.array([m]))
        if not np.array_equal(one[m], both[m]):
            bad += 1
print("modes trained differently together:", bad)
raise SystemExit(bad != 0)
""", 8)

bug("c01-gear-shift", "C01", "several iterations, several modes and a fixed step size",
    "the step size is lowered after each pass in a variable shared by all modes, so a later mode (or a faster thread) trains with another step size",
    [(EQ, """                err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                wx[mode] += mu * err[mode, it*TrSyms+i] * X
                if adaptive and i > 0:""", """                err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                wx[mode] += mu * err[mode, it*TrSyms+i] * X
                if i == TrSyms - 1 and it > 0 and it + 1 < Niter and not adaptive:
                    mu = mu/2 # settle with a smaller step
                if adaptive and i > 0:""")],
    """
import numpy as np
from qampy.core.equalisation import equalise_signal
rng = np.random.RandomState(1)
E = (rng.randn(2, 600) + 1j*rng.randn(2, 600))/np.sqrt(2)
both, err = equalise_signal(E, 2, 1e-3, 4, Ntaps=5, method="cma_real", Niter=4)
bad = 0
for m in range(2):
    one, e1 = equalise_signal(E, 2, 1e-3, 4, Ntaps=5, method="cma_real", Niter=4, modes=np.array([m]))
    bad += not np.array_equal(one[[m, m+2]], both[[m, m+2]])
print("modes trained differently together:", bad)
raise SystemExit(bad != 0)
""", 1)

bug("c02-shared-accumulator", "C02", "two worker threads filtering different samples at the same time",
    "the partial sums of the filter live in one array that all threads share",
    [(EQ, """            Xest = apply_filter(E[:, i*os:i*os+Ntaps], wx[modes[j]])
            output[j, i] = Xest
""", """            acc[j] = 0
            for k in range(E.shape[0]):
                for n in range(Ntaps):
                    acc[j] += E[k, i*os+n]*wx[modes[j], k, n]
            output[j, i] = acc[j]
"""), (EQ, "    output  = np.zeros((nmodes, N), dtype=E.dtype)\n", "    output = np.zeros((nmodes, N), dtype=E.dtype)\n    acc = np.zeros(nmodes, dtype=E.dtype)\n")],
    """
import numpy as np
from qampy.core.equalisation import apply_filter
rng = np.random.RandomState(1)
bad = 0
for k in range(40):
    E = rng.randn(2, 20000) + 1j*rng.randn(2, 20000)
    w = rng.randn(2, 2, 15) + 1j*rng.randn(2, 2, 15)
    a, b = apply_filter(E, 2, w), apply_filter(E, 2, w, method="py")
    bad += not np.allclose(a, b)
print("wrong outputs:", bad)
raise SystemExit(bad != 0)
""", 8)

bug("c03-shared-distances", "C03", "two worker threads demapping different symbols at the same time with the min-max demapper",
    "the smallest distances are kept in a buffer per bit that all threads share",
    [(DSP, """def find_minmax(btx, rx):
    tmp = 10000.
    tmp2 = 10000.
    k = btx.shape[0]
    for l in range(k):
        tmp3 = abs(btx[l,1] - rx)**2
        tmp4 = abs(btx[l,0] - rx)**2
        if tmp3 < tmp:
            tmp = tmp3
        if tmp4 < tmp2:
           tmp2 = tmp4
    return tmp, tmp2
""", """def find_minmax(btx, rx, d1, d0):
    k = btx.shape[0]
    for l in range(k):
        d1[l] = abs(btx[l,1] - rx)**2
        d0[l] = abs(btx[l,0] - rx)**2
    return np.min(d1), np.min(d0)
"""), (DSP, """    k = bits_map.shape[1]
    #omp parallel for collapse(2)
    for symb in range(N):
        for bit in range(num_bits):
            tmp, tmp2 = find_minmax(bits_map[bit,:,:], rx_symbs[symb])
""", """    d = np.zeros((num_bits, 2, bits_map.shape[1]))
    #omp parallel for collapse(2)
    for symb in range(N):
        for bit in range(num_bits):
            tmp, tmp2 = find_minmax(bits_map[bit,:,:], rx_symbs[symb], d[bit, 0], d[bit, 1])
""")],
    """
import numpy as np
from qampy import signals
from qampy.core.signal_quality import soft_l_value_demapper_minmax
s = signals.SignalQAMGrayCoded(16, 20000, seed=1)
rng = np.random.RandomState(1)
r = s[0] + 0.1*(rng.randn(20000) + 1j*rng.randn(20000))
r = np.array(r)
bad = 0
d = abs(r[:, None, None, None] - s._bitmap_mtx[None])**2
want = 10.*(d[..., 0].min(axis=2) - d[..., 1].min(axis=2))
for k in range(60):
    l = soft_l_value_demapper_minmax(r, 4, 10., s._bitmap_mtx)
    bad += not np.allclose(l, want)
print("wrong soft values:", bad)
raise SystemExit(bad != 0)
""", 8)

bug("c04-partial-sums", "C04", "more than four threads, two of which update the same partial sum at the same time",
    "the reduction was replaced by four partial sums selected by the symbol index, which different threads share",
    [(DSP, """    L = sig.size
    mi_out = 0
    #omp parallel for reduction(+:mi_out)
    for l in range(L):
        tmp = 0
        for j in range(M):
            tmp += np.exp(-(abs(sig[l]-symbols[j])**2 - abs(sig[l]-sig_tx[l])**2)/N0)
        mi_out += np.log2(tmp)
    return np.log2(M) - mi_out/L""", """    L = sig.size
    mi_out = np.zeros(4)
    #omp parallel for
    for l in range(L):
        tmp = 0
        for j in range(M):
            tmp += np.exp(-(abs(sig[l]-symbols[j])**2 - abs(sig[l]-sig_tx[l])**2)/N0)
        mi_out[4*l//L] += np.log2(tmp)
    return np.log2(M) - np.sum(mi_out)/L""")],
    """
import numpy as np
from qampy import signals
s = signals.SignalQAMGrayCoded(4, 20001, seed=1)
rng = np.random.RandomState(1)
r = s + 0.3*(rng.randn(1, 20001) + 1j*rng.randn(1, 20001))
a, t = np.array(r)[0], np.array(s)[0]
N0 = 0.1
tmp = np.exp(-(abs(a[:, None] - s.coded_symbols)**2 - abs(a - t)[:, None]**2)/N0).sum(axis=1)
want = 2 - np.log2(tmp).mean()
bad = 0
for k in range(300):
    bad += not np.isclose(r.cal_mi(synced=True, snr=10.)[0], want, rtol=1e-9)
print("wrong estimates:", bad)
raise SystemExit(bad != 0)
""", 8)
