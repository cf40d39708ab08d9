From 1ae55c16ff578fa9a75a57a5741777c0f7d0da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 01/75] fix: do not race on the adaptive step size in the
 equaliser training

The modes trained in parallel all adapt and read one step size, so with more
than one thread taps and errors depended on the thread schedule. Run the modes
in parallel only when the step size is fixed; the results are those a single
thread has always given.
---
 qampy/core/equalisation/pythran_equalisation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 348fbf6..ed57dc7 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -95,7 +95,8 @@ def train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wx, modes, adaptive, sy
     assert E.shape[1] > TrSyms*os+ntaps, "Field must be longer than the number of training symbols"
     assert modes.max() < nmodes, "Maximum mode number must not be higher than number of modes"
     err = np.zeros((nmodes, TrSyms*Niter), dtype=E.dtype)
-    #omp parallel for
+    # an adaptive step size is handed on from mode to mode, so the modes can only run in parallel without it
+    #omp parallel for if(!adaptive)
     for mode in modes:
         for it in range(Niter):
             for i in range(TrSyms):
@@ -159,7 +160,8 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
         TrSyms == E.shape[1] - ntaps
     assert modes.max() < nmodes, "Maximum mode number must not be higher than number of modes"
     err = np.zeros((nmodes, TrSyms*Niter), dtype=E.dtype)
-    #omp parallel for
+    # an adaptive step size is handed on from mode to mode, so the modes can only run in parallel without it
+    #omp parallel for if(!adaptive)
     for mode in modes:
         for it in range(Niter):
             for i in range(TrSyms):
-- 
2.43.0


From 83ca15fd68b0a4b803d2a1ff7a170c76625e6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 02/75] fix: keep the test-angle index of the blind phase
 search private to each thread

Assigned in two branches, the index became one variable shared by all
threads of the parallel loop, so with one angle set per sample (second
stage of bps_twostage) distances were computed with the angles of other
samples.
---
 qampy/core/pythran_dsp.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index c9f1365..de80d0b 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -73,10 +73,7 @@ def bps(E, testangles, symbols, N):
     dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)+100.
     #omp parallel for
     for i in range(L):
-        if p > 1:
-            ph_idx = i
-        else:
-            ph_idx = 0
+        ph_idx = i if p > 1 else 0 # a single assignment keeps this private to the thread
         for j in range(Ntestangles):
             tmp = E[i] * comp[ph_idx, j]
             s, dtmp = det_symbol(tmp, symbols)
-- 
2.43.0


From 9123467d6e5490ee4bfe9a3c18aa0a62f123db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 03/75] fix: save signals all-or-nothing

Saving truncated the target before the signal was serialised and written, so a
full disk, an interrupt, a crash or a signal that can not be pickled destroyed
what the file held before and left a torn file behind.
---
 qampy/core/io.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/qampy/core/io.py b/qampy/core/io.py
index b60942e..1a75ea8 100644
--- a/qampy/core/io.py
+++ b/qampy/core/io.py
@@ -20,8 +20,11 @@
 IO helper functions
 """
 
-import zlib
+import os
 import pickle
+import shutil
+import uuid
+import zlib
 import numpy as np
 from scipy.io import loadmat
 
@@ -39,9 +42,34 @@ def save_signal(fn, signal, lvl=4):
     lvl : int, optional
         the compression to use for zlib
     """
-    with  open(fn, "wb") as fp:
-        sc = zlib.compress(pickle.dumps(signal, protocol=pickle.HIGHEST_PROTOCOL), level=lvl)
-        fp.write(sc)
+    sc = zlib.compress(pickle.dumps(signal, protocol=pickle.HIGHEST_PROTOCOL), level=lvl)
+    _replace_file(fn, sc)
+
+def _replace_file(fn, data):
+    """
+    Write data to a file, such that the file holds either its old content or all of data at any time,
+    even if writing fails or is interrupted.
+    """
+    if isinstance(fn, int) or (os.path.exists(fn) and not os.path.isfile(fn)):
+        with open(fn, "wb") as fp: # a descriptor or device can not be replaced
+            fp.write(data)
+        return
+    fn = os.path.realpath(os.fsdecode(fn))
+    tmp = os.path.join(os.path.dirname(fn), ".{}.tmp".format(uuid.uuid4().hex))
+    try:
+        with open(tmp, "xb") as fp:
+            fp.write(data)
+            fp.flush()
+            os.fsync(fp.fileno()) # the data needs to be on disk before it becomes visible under the new name
+        if os.path.exists(fn):
+            shutil.copymode(fn, tmp)
+        os.replace(tmp, fn)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+        raise
 
 def load_signal(fn):
     """
-- 
2.43.0


From 92584a18149ff69d080a59d89bc5b4d1d4be83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 04/75] fix: keep the power method of hybrid signals in copies
 and files

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7d489bf..813a59e 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1226,7 +1226,7 @@ class TDHQAMSymbols(SignalBase):
     fs : float
         sampling rate
     """
-    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio" ]
+    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio", "_power_method" ]
 
     def __new__(cls, M, N, fr=0.5, power_method="dist",
                 M1class=SignalQAMGrayCoded, M2class=SignalQAMGrayCoded, **kwargs):
-- 
2.43.0


From 5446053b8d7b6105cdd80256928cda7c302f1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 05/75] fix: detect damaged signal files that pass the checksum
 of zlib

Adler-32 does not notice, for example, two swapped blocks with the same byte
sum in a file saved without compression. Append a SHA-256 digest, which is
verified on loading; files without one can still be loaded, and older versions
ignore it.
---
 qampy/core/io.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qampy/core/io.py b/qampy/core/io.py
index 1a75ea8..ab1d20d 100644
--- a/qampy/core/io.py
+++ b/qampy/core/io.py
@@ -20,6 +20,7 @@
 IO helper functions
 """
 
+import hashlib
 import os
 import pickle
 import shutil
@@ -43,7 +44,8 @@ def save_signal(fn, signal, lvl=4):
         the compression to use for zlib
     """
     sc = zlib.compress(pickle.dumps(signal, protocol=pickle.HIGHEST_PROTOCOL), level=lvl)
-    _replace_file(fn, sc)
+    # the checksum of zlib misses some changes, e.g. swapped blocks with the same byte sum
+    _replace_file(fn, sc + hashlib.sha256(sc).digest())
 
 def _replace_file(fn, data):
     """
@@ -87,9 +89,13 @@ def load_signal(fn):
 
     """
     with open(fn, "rb") as fp:
-        s = zlib.decompress(fp.read())
-        obj = pickle.loads(s)
-    return obj
+        sc = fp.read()
+    zobj = zlib.decompressobj()
+    s = zobj.decompress(sc)
+    digest = zobj.unused_data # files from older versions have none
+    if not zobj.eof or (digest and digest != hashlib.sha256(sc[:-len(digest)]).digest()):
+        raise ValueError("{} is damaged".format(fn))
+    return pickle.loads(s)
 
 def ndarray_from_matlab(fn, keys, transpose=False, dim2cmplx=False, portmap=[[0,1], [2,3]]):
     """
-- 
2.43.0


From f84203b49923f1eba4e8bad624d4a5c1f76dda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 06/75] fix: extend repeated data to whole multiples of its
 length at the front

With an offset that is a multiple of the length data[-0:] added the whole
sequence once more, so unsynchronised measurements of a repeated payload
failed with arrays of different length.
---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index d8e6e1d..eb8e143 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -316,7 +316,7 @@ def _adjust_to(data, N, back=True):
     if back:
         data = np.hstack([tmp, data[:rem]])
     else:
-        data = np.hstack([data[-rem:], tmp])
+        data = np.hstack([data[L-rem:], tmp])
     return data
 
 def cal_ber_syncd(data_rx, data_tx, threshold=0.2):
-- 
2.43.0


From 76fb564d7c3e3040c8cc4af7cbcde3f2c3e4b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 07/75] fix: do not rescale the input of quantize_signal

---
 qampy/core/impairments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 4a325e8..3aed145 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -347,6 +347,7 @@ def quantize_signal(sig, nbits=6, rescale=True, re_normalize=True):
 
     # Rescale to
     if rescale:
+        sig = sig.copy() # the caller's signal must not be rescaled
         for pol in range(npols):
             sig[pol] /= np.abs(sig[pol]).max()
 
-- 
2.43.0


From ab878f1b39c3c73909a6fd18ad66d810e428d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 08/75] fix: do not center the input of comp_IQ_inbalance in
 place

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 9454f04..8288b91 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -34,7 +34,7 @@ def comp_IQ_inbalance(signal):
     """
     
     # Center signal around a mean of 0
-    signal -= np.mean(signal)
+    signal = signal - np.mean(signal)
     I = signal.real
     Q = signal.imag
 
-- 
2.43.0


From c38a738d430c044190e3ab5d238c32a43f0feb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 09/75] fix: do not train the initial taps of the caller in
 place

ascontiguousarray only copies when it has to, so the taps passed as wxy were
overwritten, among them the taps already returned for earlier frames of
pilot_equaliser_nframes.
---
 qampy/core/equalisation/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4bef90f..8040526 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -544,7 +544,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if wxy is None:
         wxy = _init_taps(Ntaps, nmodes, nmodes, E.dtype)
     else:
-        wxy = np.ascontiguousarray(wxy, dtype=E.dtype)
+        wxy = np.array(wxy, dtype=E.dtype, order="C") # the training works in place, keep the taps of the caller
         Ntaps = wxy.shape[-1]
         assert wxy.ndim == 3, "wxy needs to be three dimensional"
         assert wxy.shape[:2] == (nmodes, nmodes), "The first 2 dimensions of wxy need to be the same shape as E"
-- 
2.43.0


From f48ea97a000f009f5ae640ffbc347d2d4d8e954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 10/75] fix: do not swallow interrupts and memory errors when
 applying PMD

---
 qampy/core/impairments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 3aed145..7507e6d 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -88,7 +88,7 @@ def _applyPMD_einsum(field, H, h3):
     SS = np.dot(h3, SS)
     try:
         return field.recreate_from_np_array(SS.astype(field.dtype))
-    except:
+    except AttributeError:
         return SS.astype(field.dtype)
 
 def _applyPMD_dot(field, theta, t_dgd, omega):
@@ -100,7 +100,7 @@ def _applyPMD_dot(field, theta, t_dgd, omega):
     SS = fft.fftshift(fft.ifft(fft.ifftshift(Sf2, axes=1), axis=1), axes=1)
     try:
         return field.recreate_from_np_array(SS.astype(field.dtype))
-    except:
+    except AttributeError:
         return SS.astype(field.dtype)
 
 def apply_PMD_to_field(field, theta, t_dgd, fs):
-- 
2.43.0


From 48f5e5a6e58303c072c6505f497b899fd0dbf7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 11/75] fix: make deep copies of signals independent of the
 original

Only the samples were copied, the reference symbols, bits and pilots were
shared, so changing them on the copy changed the original.
---
 qampy/signals.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index 813a59e..0dc7d78 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -37,6 +37,7 @@ does this.
 from __future__ import division
 import numpy as np
 import abc
+import copy
 import fractions
 import warnings
 
@@ -164,6 +165,13 @@ class SignalBase(np.ndarray):
             setattr(self, att, state[ls+i])
             i += 1
 
+    def __deepcopy__(self, memo):
+        out = super().__deepcopy__(memo)
+        memo[id(self)] = out
+        for att in self._inheritbase_ + self._inheritattr_:
+            setattr(out, att, copy.deepcopy(getattr(self, att), memo))
+        return out
+
     @property
     def M(self):
         return self._M
-- 
2.43.0


From bec10672400ce810321269834721a6b2e06b64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 12/75] fix: extract payload and pilots of exactly the
 requested frames

The mask was only as long as the largest frame number, so get_data([0]) or
[1] raised, one frame too many was accepted, and with different data in each
frame the quality measures compared with the data of the first ones.
---
 qampy/signals.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 0dc7d78..09991a2 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1772,21 +1772,10 @@ class SignalWithPilots(SignalBase):
         outdata : SignalBase object
             the recovered data symbols
         """
-        if frames is None:
-            frames = np.arange(self.nframes)
-            nframes = self.nframes
-        else:
-            frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
-        #idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self._frame_len for i in frames] )
-        if nframes < 1:
-            idx = self._idx_dat[:self.shape[-1]]
-        else:
-            idx = np.zeros(self.frame_len*nframes, dtype=bool)
-            for i in frames:
-                idx[i*self.frame_len:(i+1)*self.frame_len] = self._idx_dat
-        return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+        if frames is None and self.nframes < 1:
+            idx = np.nonzero(self._idx_dat[:self.shape[-1]])[0]
+            return self.symbols.recreate_from_np_array(self[:, idx].copy())
+        return self._extract_frames(self.symbols, self._idx_dat, frames)
 
     def extract_pilots(self, frames=None):
         """
@@ -1802,14 +1791,29 @@ class SignalWithPilots(SignalBase):
         outdata : SignalBase object
             the recovered data symbols
         """        
+        return self._extract_frames(self.pilots, self._idx_pil, frames)
+
+    def _extract_frames(self, ref, idx, frames):
+        """
+        Extract the symbols at the positions idx of the given frames as a signal like ref, with the reference
+        symbols that were transmitted in those frames.
+        """
         if frames is None:
             frames = np.arange(self.nframes)
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
-        idx = np.hstack([np.nonzero(self._idx_pil)[0] + i * self._frame_len for i in frames] )
-        return self.pilots.recreate_from_np_array(self[:, idx])
+            assert np.all(frames >= 0) and np.all(frames < self.nframes), \
+                "Signal object only contains {} frames can't extract more".format(self.nframes)
+        pos = np.nonzero(idx)[0]
+        sel = np.hstack([pos + i * self._frame_len for i in frames])
+        out = ref.recreate_from_np_array(self[:, sel].copy()) # the copy is contiguous
+        # if the frames are not repetitions of the first one, select the references of the extracted ones
+        syms = getattr(ref, "_symbols", None)
+        n = pos.shape[0]
+        nref = syms.shape[-1] // n if syms is not None and n > 0 else 0
+        if nref > 1:
+            out._symbols = syms[:, np.hstack([np.arange(n) + (i % nref) * n for i in frames])].copy()
+        return out
 
     def __getattr__(self, attr):
         return getattr(self._symbols, attr)
-- 
2.43.0


From 6bedb121226a524874ca8491c4c4ff95ca0fcb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 13/75] fix: keep frame layouts given by pilot_idx as masks
 like all others

The receiver treats them as masks, so the payload and pilots of such signals
could not be extracted.
---
 qampy/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 09991a2..2826957 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1605,8 +1605,8 @@ class SignalWithPilots(SignalBase):
             idx = np.arange(frame_len)
             pidx = np.zeros(idx.shape, dtype=bool)
             pidx[pilot_idx] = True
-            idx_pil = idx[pidx]
-            idx_dat = idx[~pidx]
+            idx_pil = pidx
+            idx_dat = ~pidx
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-- 
2.43.0


From 433b4eab08ceb5e6a35ac787879425a5097fecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 14/75] fix: do not keep the modulation order of an earlier
 call in a default argument

SignalWithPilots.from_symbol_array(..., M=...) stored M in the shared default
dict, so the next call with M failed and one without it got the old order.
---
 qampy/signals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 2826957..7281cd2 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1610,8 +1610,7 @@ class SignalWithPilots(SignalBase):
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-            M = kwargs.pop("M")
-            payload_kwargs["M"] = M
+            payload_kwargs = dict(payload_kwargs, M=kwargs.pop("M"))
         if np.count_nonzero(idx_dat) > N:
             warnings.warn("Data for frame is shorter than length of data array, truncating")
         if payload_is_frame:
-- 
2.43.0


From af5abd27f9096902445dbe767c197e99082fda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 15/75] fix: compare data types by value

The dtype of an unpickled or loaded signal is an object of its own, so the blind
phase search used the wrong precision on it and hybrid signals could not be
built from it.
---
 qampy/core/phaserecovery.py | 2 +-
 qampy/signals.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 13882ee..f25a3c3 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -138,7 +138,7 @@ def bps(E, Mtestangles, symbols, N, method="pyt", **kwargs):
         bps_fct = _bps_idx_pyt
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
-    if E.dtype is np.dtype(np.complex64):
+    if E.dtype == np.complex64:
         dtype = np.float32
     else:
         dtype = np.float64
diff --git a/qampy/signals.py b/qampy/signals.py
index 7281cd2..fc19a66 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1346,7 +1346,7 @@ class TDHQAMSymbols(SignalBase):
             output time-domain hybrid QAM signal
         """
         assert syms_M1.ndim == 2 and syms_M2.ndim == 2, "input needs to have two dimensions"
-        assert syms_M1.dtype is syms_M2.dtype, "both input symbol arrays need to have the same dtype"
+        assert syms_M1.dtype == syms_M2.dtype, "both input symbol arrays need to have the same dtype"
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
-- 
2.43.0


From a6756d92500cdeaff5cc58e4b7aa43c5740115a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 16/75] fix: do not rescale the second symbol array of the
 caller of from_symbol_arrays

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index fc19a66..b904850 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1350,7 +1350,7 @@ class TDHQAMSymbols(SignalBase):
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
-        syms_M2 /= np.sqrt(scale)
+        syms_M2 = syms_M2 / np.sqrt(scale) # keep the array of the caller
         N1 = syms_M1.shape[1]
         N2 = syms_M2.shape[1]
         N = N1 + N2
-- 
2.43.0


From 4912ece7ac683f7f4a1ed4d77ea8a58bbef9b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 17/75] fix: truncate the arrays of hybrid signals as announced
 and set the orders

from_symbol_arrays warned that it truncates the arrays and then failed on the
longer one, and left the modulation orders of the signal unset.
---
 qampy/signals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index b904850..1a22778 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1361,6 +1361,8 @@ class TDHQAMSymbols(SignalBase):
         N = nframes * f_M
         out = np.zeros((syms_M1.shape[0], N), dtype=syms_M1.dtype)
         idx, idx1, idx2 = cls._cal_symbol_idx(N, f_M, f_M1)
+        syms_M1 = syms_M1[:, :nframes * f_M1]
+        syms_M2 = syms_M2[:, :nframes * f_M2]
         out[:, idx1] = syms_M1
         out[:, idx2] = syms_M2
         obj = out.view(cls)
@@ -1370,6 +1372,7 @@ class TDHQAMSymbols(SignalBase):
         obj._fr = fr
         obj._fb = syms_M1.fb
         obj._fs = syms_M1.fb
+        obj._M = (syms_M1.M, syms_M2.M)
         obj._power_method = power_method
         return obj
 
-- 
2.43.0


From 463df2749f65005fe1205ff23368c267ee524c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 18/75] fix: keep the frequency offset until it is corrected

A failing correction lost the offset, and after a correction it was a plain 0,
so correcting an additional offset raised AttributeError.
---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 1a22778..c6cba73 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1756,8 +1756,8 @@ class SignalWithPilots(SignalBase):
 
     def corr_foe(self, additional_foe = 0):
         foe_off = np.ones(self._foe.shape)*(np.mean(self._foe) + additional_foe)
-        self._foe = 0
         self[:,:] = phaserec.comp_freq_offset(self, foe_off)
+        self._foe = np.zeros_like(self._foe)
 
 
     def get_data(self, frames=None):
-- 
2.43.0


From fdd660169bab5f21b85405785eb927b8cf060f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 19/75] fix: generate new pilots for every frame when they are
 not repeated

SignalWithPilots(repeat_pilots=False) with more than one frame failed because
only the pilots of one frame were generated.
---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index c6cba73..972e9fd 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1509,7 +1509,7 @@ class SignalWithPilots(SignalBase):
         if repeat_pilots:
             pilots = np.tile(SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale, (1, nframes))
         else:
-            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
+            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil)*nframes, nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
 
         # Note that currently the phase pilots start one symbol after the sequence
         # TODO: we should probably fix this
-- 
2.43.0


From 9138a64199c4634e0f84508e5e5e725841ff684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 20/75] fix: use the right reference pilots in pilot_cpe over
 several frames

signal.pilots and ph_pilots of a signal generated with several frames hold the
pilots of all of them, so from the second frame on the phase pilots were compared
with the pilot sequence. max_blocks and pilot_rat misaligned them as well.
---
 qampy/core/pilotbased_receiver.py |  6 +++++-
 qampy/phaserec.py                 | 13 +++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index e60dc63..72141f8 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -308,7 +308,11 @@ def pilot_based_cpe_new(signal, pilot_symbs,  pilot_idx, frame_len, seq_len=None
     ilim = pilot_idx_full < nlen
     pilot_idx_full = pilot_idx_full[ilim]
     rec_pilots = signal[:, pilot_idx_full]
-    pilot_symbs = np.tile(pilot_symbs[:, ::use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
+    if pilot_symbs.shape[-1] < pilot_idx.shape[-1]*nframes: # the pilots of one frame
+        pilot_symbs = np.tile(pilot_symbs[:, :pilot_idx.shape[-1]], nframes)
+    idx_ref = np.arange(pilot_idx.shape[-1])[:max_num_blocks:use_pilot_ratio]
+    idx_ref = np.ravel(idx_ref + pilot_idx.shape[-1]*np.arange(nframes)[:, None])
+    pilot_symbs = pilot_symbs[:, idx_ref][:, :rec_pilots.shape[-1]]
     assert rec_pilots.shape == pilot_symbs.shape, "Inproper pilot configuration, the number of"\
             +" received pilots differs from reference ones"
     # Check for a out of bounch error
diff --git a/qampy/phaserec.py b/qampy/phaserec.py
index 77e8020..dba0302 100644
--- a/qampy/phaserec.py
+++ b/qampy/phaserec.py
@@ -178,14 +178,19 @@ def pilot_cpe(signal, N=3, pilot_rat=1, max_blocks=None, nframes=1, use_seq=Fals
     trace : array_like
         phase trace
     """
+    idx = np.nonzero(signal._idx_pil)[0]
+    # the reference can be the pilots of one or of several frames
+    npil = idx.shape[0]
+    pilots = np.asarray(signal.pilots)
+    pilots = pilots.reshape(pilots.shape[0], -1, npil)
+    pilots = pilots[:, np.arange(nframes) % pilots.shape[1]]
     if use_seq:
         seq_len = signal._pilot_seq_len
-        idx = np.nonzero(signal._idx_pil)[0]
-        pilots = signal.pilots
     else:
         seq_len = None
-        idx = np.nonzero(signal._idx_pil)[0][signal._pilot_seq_len:]
-        pilots = signal.ph_pilots
+        idx = idx[signal._pilot_seq_len:]
+        pilots = pilots[:, :, signal._pilot_seq_len:]
+    pilots = np.ascontiguousarray(pilots).reshape(pilots.shape[0], -1)
     out, phase = core.pilotbased_receiver.pilot_based_cpe_new(signal, pilots, idx, signal.frame_len, seq_len=seq_len,
                                                            max_num_blocks=max_blocks, use_pilot_ratio=pilot_rat, num_average=N,
                                                             nframes=nframes)
-- 
2.43.0


From 88817020b6a7758fd70dece2db2a0526beea9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 21/75] fix: train the pilot equaliser on the requested frame
 for any number of taps

The offset of the frame was only added when the number of taps differed from
that of the synchronisation, otherwise the taps of frame 0 were returned.
---
 qampy/equalisation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 209b959..f80e4f8 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -315,8 +315,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
         Ntaps = wxinit.shape[-1]
     if (abs(Ntaps-signal.synctaps) % 2) != 0:
         raise ValueError("Tap difference need to be an integer of the oversampling")
-    elif Ntaps != signal.synctaps:
-        eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2 + signal.os*signal.frame_len*frame
+    eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2 + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
-- 
2.43.0


From 2eb6cd6456b89cef97c7a241218f8aa87f8412c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 22/75] fix: return the verbose result of pilot_equaliser
 without apply

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index f80e4f8..8aba3a5 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -332,7 +332,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
             return taps_all, eq_mode_sig
     else:
         if verbose:
-            taps_all, foe_all, (Ntaps, signal.synctaps)
+            return taps_all, foe_all, (Ntaps, signal.synctaps)
         else:
             return taps_all
         
-- 
2.43.0


From 5f1f81646fb8bd79444811f688a5a5f0c316151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 23/75] fix: equalise captures that start right before a frame

When the additional taps reach back before the first sample the filter is applied
to the next frame, but the training used negative indices, i.e. no samples.
---
 qampy/equalisation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 8aba3a5..bcaae2c 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -44,8 +44,8 @@ def _apply_to_pilotsignal(sig, wxy, frames):
     shiftfctrs = sig.shiftfctrs
     if Ntaps != sig.synctaps:
         shiftfctrs = shiftfctrs - (Ntaps - sig.synctaps)//2
-    if np.min(shiftfctrs) < 0:
-        shiftfctrs += sig.os*sig.frame_len
+    if np.min(shiftfctrs) < 0: # the first complete frame is the next one
+        shiftfctrs = shiftfctrs + sig.os*sig.frame_len
     assert shiftfctrs.max() + sig.os*sig.frame_len*(max(frames)+1) < sig.shape[-1] - (Ntaps - 1), \
         "Trying to equalise frame {}, but signal is not long enough".format(max(frames))
     if np.all(np.diff(frames) == 1):
@@ -315,7 +315,10 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
         Ntaps = wxinit.shape[-1]
     if (abs(Ntaps-signal.synctaps) % 2) != 0:
         raise ValueError("Tap difference need to be an integer of the oversampling")
-    eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2 + signal.os*signal.frame_len*frame
+    eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2
+    if np.min(eq_shiftfctrs) < 0: # the first complete frame is the next one, as when applying the filter
+        eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len
+    eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
-- 
2.43.0


From 228407b16043b5947d4466e0e00c553d53905200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 24/75] fix: give extracted pilots the symbol and sampling rate
 of the signal

Pilots generated by from_symbol_array carried the default rate of 1 instead.
---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 972e9fd..fe4378b 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1808,7 +1808,7 @@ class SignalWithPilots(SignalBase):
                 "Signal object only contains {} frames can't extract more".format(self.nframes)
         pos = np.nonzero(idx)[0]
         sel = np.hstack([pos + i * self._frame_len for i in frames])
-        out = ref.recreate_from_np_array(self[:, sel].copy()) # the copy is contiguous
+        out = ref.recreate_from_np_array(self[:, sel].copy(), fb=self.fb, fs=self.fs) # the copy is contiguous
         # if the frames are not repetitions of the first one, select the references of the extracted ones
         syms = getattr(ref, "_symbols", None)
         n = pos.shape[0]
-- 
2.43.0


From 98abd740a775bd117b661271bd0b087ec165ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 25/75] fix: truncate the references together with the payload
 of a pilot signal

A payload longer than one frame was cut to the frame, but its reference symbols
and bits were not, so all but the first frame were compared with the wrong
symbols (a symbol error rate of 0.6 without any impairment).
---
 qampy/signals.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index fe4378b..8a69935 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1647,6 +1647,11 @@ class SignalWithPilots(SignalBase):
         obj._pilot_seq_len = pilot_seq_len
         obj._pilot_ins_rat = pilot_ins_rat
         obj._symbols = payload[:, :Ndat].copy()
+        if N > Ndat: # the references of the payload need to be truncated as well
+            for att in ("_symbols", "_bits"):
+                ref = getattr(payload, att, None)
+                if ref is not None and ref.shape[-1] % N == 0:
+                    setattr(obj._symbols, att, ref[:, :ref.shape[-1] // N * Ndat].copy())
         obj._pilots = pilots
         obj._idx_dat = idx_dat
         obj._idx_pil = idx_pil
-- 
2.43.0


From cb79bbbaf47a1cc05cdf1a00549e865410625bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 26/75] fix: apply the dispersion given to
 simulate_transmission

The accumulated dispersion was looked up under a name that does not exist.
---
 qampy/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/impairments.py b/qampy/impairments.py
index b4543ab..5677b29 100644
--- a/qampy/impairments.py
+++ b/qampy/impairments.py
@@ -165,7 +165,7 @@ def simulate_transmission(sig, snr=None, freq_off=None, lwdth=None, dgd=None, th
     if modal_delay is not None:
         sig = add_modal_delay(sig, modal_delay)
     if dispersion is not None:
-        sig = add_dispersion(sig, D, 1)
+        sig = add_dispersion(sig, dispersion, 1)
     if dgd is not None:
         sig = apply_PMD(sig, theta, dgd)
     return sig
-- 
2.43.0


From bbac5859a03f6e05fdd61a792394ed9289ba3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 27/75] fix: keep the bits of all modes in from_symbol_array

Only the bits of the last mode were stored, as a one-dimensional array.
---
 qampy/signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 8a69935..5e80e81 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -773,8 +773,9 @@ class SignalQAMGrayCoded(SignalBase):
         scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
         coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
         out = np.empty_like(symbs).astype(dtype)
+        idx = np.zeros(symbs.shape, dtype=np.uint16)
         for i in range(symbs.shape[0]):
-            out[i], _, idx = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
+            out[i], _, idx[i] = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
         bits = cls._demodulate(idx, encoding)
         obj = np.asarray(out).view(cls)
         obj._M = M
@@ -1651,7 +1652,7 @@ class SignalWithPilots(SignalBase):
             for att in ("_symbols", "_bits"):
                 ref = getattr(payload, att, None)
                 if ref is not None and ref.shape[-1] % N == 0:
-                    setattr(obj._symbols, att, ref[:, :ref.shape[-1] // N * Ndat].copy())
+                    setattr(obj._symbols, att, ref[..., :ref.shape[-1] // N * Ndat].copy())
         obj._pilots = pilots
         obj._idx_dat = idx_dat
         obj._idx_pil = idx_pil
-- 
2.43.0


From b190d65f5cd602d4ba1f9325d0dd552540ac5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 28/75] fix: store the bits that are modulated in
 from_bit_array

Bits that do not fill a symbol were dropped from the symbols but kept in the
bits, and one-dimensional bits stayed one-dimensional.
---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 5e80e81..051d4e0 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -829,7 +829,7 @@ class SignalQAMGrayCoded(SignalBase):
         obj._M = M
         obj._fb = fb
         obj._fs = fb
-        obj._bits = bits
+        obj._bits = arr
         obj._encoding = encoding
         obj._code = graycode
         obj._bitmap_mtx = bitmap_mtx
-- 
2.43.0


From 5e16a17cb0e1f253755f3f1ef451d595d98e3f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 29/75] fix: do not shift the caller's factors and signal in
 place

correct_shifts and shift_signal return their result, but changed their
input as well, so that calling them again shifted twice.
---
 qampy/core/pilotbased_receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 72141f8..c8ac266 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -443,12 +443,12 @@ def correct_shifts(shift_factors, ntaps, os):
     if not((ntaps[1]-ntaps[0])%os  ==  0):
         raise ValueError("Taps for search and convergence impropper configured")
     tap_cor = int((ntaps[1]-ntaps[0])/2)
-    shift_factors -= tap_cor
-    return shift_factors
+    return shift_factors - tap_cor
 
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
     if k > 1:
+        sig = sig.copy() # keep the signal of the caller
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-- 
2.43.0


From 6141a158c92a1030e62200adfa1f7f133f271abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 30/75] fix: normalise a signal as a whole or not at all

A symbol-based normalisation that was interrupted, or whose SNR estimate
failed, left the signal centered but not scaled.
---
 qampy/signals.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 051d4e0..06f4feb 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -570,10 +570,11 @@ class SignalBase(np.ndarray):
         if not symbol_based:
             self[:] = helpers.normalise_and_center(self)
         else:
-            self -= self.mean(axis=-1)[:, None]
-            p = self.est_snr(synced=synced, verbose=True)[1]
+            sig = self - self.mean(axis=-1)[:, None]
+            p = sig.est_snr(synced=synced, verbose=True)[1]
             for i in range(self.shape[0]):
-                self[i] /= np.sqrt(p[i])
+                sig[i] /= np.sqrt(p[i])
+            self[:] = sig # only once nothing can fail any more
 
     def save_to_file(self, fn, lvl=5):
         save_signal(fn, self, lvl)
-- 
2.43.0


From f4b01503b07e0a23cc1708b3d29dd8d3bb3d335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 31/75] fix: keep the given PRBS orders and seeds if there are
 too few for all modes

After the first mode the lists were replaced by the ones being built, so the
orders and seeds given for the other modes were ignored and random ones used
instead, and too few seeds with enough orders raised an IndexError as opposed
to the documented random seeds. A random seed must not be zero, the shift
register never leaves that state.
---
 qampy/signals.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 06f4feb..ccb9630 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -115,20 +115,9 @@ class PRBSBits(np.ndarray):
     def __new__(cls, N, nmodes=1, seed=[None, None], order=[15, 23]):
         if len(order) < nmodes:
             warnings.warn("PRBSorder is not given for all dimensions, picking random orders and seeds")
-            order_n = []
-            seed_n = []
-            orders = [15, 23]
-            for i in range(nmodes):
-                try:
-                    order_n.append(order[i])
-                    seed_n.append(seed[i])
-                except IndexError:
-                    o = np.random.choice(orders)
-                    order_n.append(o)
-                    s = np.random.randint(0, 2 ** o)
-                    seed_n.append(s)
-                order = order_n
-                seed = seed_n
+            order = list(order) + [np.random.choice([15, 23]) for i in range(len(order), nmodes)]
+        if len(seed) < nmodes:
+            seed = list(seed) + [np.random.randint(1, 2 ** order[i]) for i in range(len(seed), nmodes)]
         bits = np.empty((nmodes, N), dtype=bool)
         for i in range(nmodes):
             bits[i][:] = make_prbs_extXOR(order[i], N, seed[i])
-- 
2.43.0


From 4afa15d3f5afd9e27e0637701f64e78db3f0270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 32/75] fix: pass the order to the internal XOR PRBS generator

make_prbs_intXOR always raised a TypeError.
---
 qampy/core/prbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/prbs.py b/qampy/core/prbs.py
index acfb793..996099a 100644
--- a/qampy/core/prbs.py
+++ b/qampy/core/prbs.py
@@ -78,6 +78,7 @@ def make_prbs_intXOR(order, nbits, seed=None):
     """
     assert order in [7, 15, 23, 31], """Only orders 7, 15, 23, 31 are
     implemented"""
+    nbits = int(nbits) # need to make sure it is integer for pythran
     masks = {
         7: 2**7 + 2**6 + 1,
         15: 2**15 + 2**14 + 1,
@@ -91,6 +92,6 @@ def make_prbs_intXOR(order, nbits, seed=None):
             seed = utils.bool2bin(seed)
         except TypeError:
             seed = seed
-    out = prbs_int(seed, masks[order], nbits)
+    out = prbs_int(seed, masks[order], order, nbits)
     return out.astype(bool)
 
-- 
2.43.0


From ed9e1e603238055db5d6ca9b49a4b07916d249ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 33/75] fix: use the name the blind phase search has

The module could not be imported since blindphasesearch was renamed to bps.
---
 qampy/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index 5ddcd83..cb04f40 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -20,7 +20,7 @@ import zmq
 import numpy as np
 import msgpack
 import msgpack_numpy as msgp_npy
-from qampy.core.phaserecovery import blindphasesearch
+from qampy.core.phaserecovery import bps
 
 # careful we cannot use the unpatched msgpack because it messes up dictionary keys to bytes
 msgp_npy.patch()
@@ -145,7 +145,7 @@ class PhRecWorker(RepWorker):
         M = pdict['Mtestangles']
         syms = pdict['symbols']
         N = pdict['N']
-        Eout, ph = blindphasesearch(E, M, syms, N)
+        Eout, ph = bps(E, M, syms, N)
         return {'Eout':Eout, 'ph':ph, 'id': id}
 
 
-- 
2.43.0


From c0e47f0e3f30423b9226260029e8e897cd6e4707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 34/75] fix: answer requests that are malformed or fail in
 unusual ways

A reply worker died without an answer, leaving the client waiting, when the
message did not consist of two parts or could not be unpacked, when the text
of an error was not ASCII, or when the result could not be packed. A request
naming a method of the worker itself, e.g. send_msg, was answered twice, which
killed the worker as well.
---
 qampy/core/processing.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index cb04f40..d6974f5 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -38,6 +38,12 @@ def send_array(socket, A, flags=0, copy=True, track=False):
 def recv_array(socket, flags=0, copy=True, track=False):
     return unpack_array(socket.recv(flags=flags, copy=copy, track=track))
 
+def _error_text(err):
+    try:
+        return repr(err).encode("ascii", "backslashreplace")
+    except Exception: # the error can not even be printed
+        return type(err).__name__.encode("ascii", "backslashreplace")
+
 class PPWorker(object):
     def __init__(self, send_url, receive_url, context=None):
         self.context = context or zmq.Context.instance()
@@ -83,15 +89,19 @@ class RepWorker(object):
         return header, unpack_array(msg)
 
     def process(self):
-        header, msg = self.recv_msg()
+        frames = self.socket.recv_multipart()
+        # whatever goes wrong from here on, the request has to be answered (exactly once)
         try:
-            result = getattr(self, header.decode("ascii"))(msg)
+            header, msg = frames
+            name = header.decode("ascii")
+            if name.startswith("_") or hasattr(RepWorker, name):
+                raise AttributeError("unknown operation {}".format(name))
+            result = pack_array(getattr(self, name)(unpack_array(msg)))
             success = b"OK"
         except Exception as err:
             success = b"ERR"
-            result = repr(err).encode("ascii")
-        finally:
-            self.send_msg(result, success)
+            result = pack_array(_error_text(err))
+        self.socket.send_multipart([success, result])
 
     def run(self):
         while True:
-- 
2.43.0


From b7fc87bbb5646f34d580d85fe4b2106b846589ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 35/75] fix: make the push-pull worker work

It received from a socket that does not exist, sent a variable that does not
exist, and used bytes as the name of the operation.
---
 qampy/core/processing.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index d6974f5..1d6552d 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -52,27 +52,30 @@ class PPWorker(object):
         self.receive_socket = self.context.socket(zmq.PULL)
         self.receive_socket.connect(receive_url)
 
-    def send_msg(self, msg, success=b"OK", flags=None):
-        self.send_socket.send_multipart([success, pack_array(A)], flags=flags)
+    def send_msg(self, msg, success=b"OK", flags=0):
+        self.send_socket.send_multipart([success, pack_array(msg)], flags=flags)
 
-    def recv_msg(self, flags=None):
-        header, msg = self.collect_socket.recv_multipart(flags=flags)
+    def recv_msg(self, flags=0):
+        header, msg = self.receive_socket.recv_multipart(flags=flags)
         return header, unpack_array(msg)
 
-    def process(self, flags=None):
-        header, msg = self.recv_msg(flags=flags)
+    def process(self, flags=0):
+        frames = self.receive_socket.recv_multipart(flags=flags)
         try:
-            result = getattr(self, header)(**msg)
+            header, msg = frames
+            name = header.decode("ascii")
+            if name.startswith("_") or hasattr(PPWorker, name):
+                raise AttributeError("unknown operation {}".format(name))
+            result = pack_array(getattr(self, name)(**unpack_array(msg)))
             success = b"OK"
         except Exception as err:
             success = b"ERR"
-            result = err.encode("ascii")
-        self.send_msg(result, success)
+            result = pack_array(_error_text(err))
+        self.send_socket.send_multipart([success, result])
 
     def run(self):
         while True:
             self.process()
-        self.socket.close()
 
 class RepWorker(object):
     def __init__(self, url, context=None):
-- 
2.43.0


From ea73651b97175566323be77b061c8692f6b21728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 36/75] fix: accept a number as the port of a ResultSink, as
 for DataDealer

---
 qampy/core/processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/processing.py b/qampy/core/processing.py
index 1d6552d..4601447 100644
--- a/qampy/core/processing.py
+++ b/qampy/core/processing.py
@@ -146,9 +146,10 @@ class ResultSink(object):
         self.context = context or zmq.Context.instance()
         self.socket = self.context.socket(zmq.PULL)
         if port is None:
-            self.socket.bind_to_random_port(url)
+            self.port = self.socket.bind_to_random_port(url)
         else:
-            self.socket.bind(url+":"+port)
+            self.socket.bind(u"{}:{}".format(url, port))
+            self.port = port
 
 
 class PhRecWorker(RepWorker):
-- 
2.43.0


From d3aef3e7d0524d657c8da41ffcb335bbfaebeddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 37/75] fix: keep the alphabet of one-mode pilots in
 from_symbol_array

---
 qampy/signals.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index ccb9630..aa82b1e 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1620,7 +1620,14 @@ class SignalWithPilots(SignalBase):
             if pilots.shape[0] == nmodes:
                 pass
             elif pilots.shape[0] == 1:
-                pilots = np.array(np.vstack([pilots]*nmodes)) # this is necessary because np.vstack does not inherit attributes see issue #5
+                pilots_1 = pilots
+                pilots = np.repeat(np.asarray(pilots_1), nmodes, axis=0)
+                if issubclass(pilots_1.__class__, SignalBase): # keep what is known about the pilots
+                    pilots = pilots_1.recreate_from_np_array(pilots)
+                    for att in ("_symbols", "_bits"):
+                        ref = getattr(pilots_1, att, None)
+                        if ref is not None:
+                            setattr(pilots, att, np.repeat(ref, nmodes, axis=0))
             else:
                 raise ValueError("Pilots need to have the same number of modes as data or be one mode")
             if not issubclass(pilots.__class__, SignalBase):
-- 
2.43.0


From aff91ac06fefeefba8c967876151d8eb5854066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 38/75] fix: count symbol errors against decided references

Rotating the references to remove the ambiguity of the carrier leaves PSK
points that differ in the last bit from those of the alphabet, so every symbol
counted as an error.
---
 qampy/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index aa82b1e..05dea57 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -324,7 +324,8 @@ class SignalBase(np.ndarray):
         nmodes = signal_rx.shape[0]
         symbols_tx, signal_rx = self._sync_and_adjust(self.symbols, signal_rx, synced)
         data_demod = self.make_decision(signal_rx)
-        #errs = np.count_nonzero(data_demod - symbols_tx, axis=-1)
+        # after a rotation the references are the points of the alphabet only up to rounding
+        symbols_tx = self.make_decision(symbols_tx)
         errs = data_demod - symbols_tx
         if verbose:
             return np.count_nonzero(errs, axis=-1) / data_demod.shape[1], errs, symbols_tx
-- 
2.43.0


From 789b5513ffa8dbdb33a78729c4203038538e7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 39/75] fix: generate the symbols for both methods if none are
 given

Without symbols dual_mode_equalisation passed arrays of None on, which
decision based methods took for the alphabet.
---
 qampy/core/equalisation/equalisation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 8040526..8403d7c 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -454,9 +454,12 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
 
     if apply is False do not return E
     """
-    symbols = np.atleast_1d(symbols)
-    if symbols.ndim < 3:
-        symbols = np.tile(symbols, (2,1,1))
+    if symbols is None:
+        symbols = (None, None) # use the symbols generated for the QAM format
+    else:
+        symbols = np.atleast_1d(symbols)
+        if symbols.ndim < 3:
+            symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
     wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
     if apply:
-- 
2.43.0


From 4d6dad715656ef9d7dac0f653b9ceddb7e6e83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 40/75] fix: train each method of dual_mode_equalisation with
 its own symbols

With a data aided first and another second method the alphabet was passed
to both, and the first one read beyond it.
---
 qampy/core/equalisation/equalisation.py | 7 ++++---
 qampy/equalisation.py                   | 9 ++++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 8403d7c..48f25cc 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -432,8 +432,8 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
         whether to adapt the step size upon training for each of the equaliser modes
 
     symbols : array_like, optional
-        array of symbol arrays. If only a single array is given they are used for both dimensions (default=None, use the 
-        symbols generated for the QAM format)
+        array of symbol arrays, or a tuple with the symbols for each method. If only a single array is given they are used
+        for both dimensions (default=None, use the symbols generated for the QAM format)
     
     modes : array_like, optional
         array or list  of modes to  equalise over (default=None  equalise over all modes of the input signal)
@@ -456,7 +456,8 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
     """
     if symbols is None:
         symbols = (None, None) # use the symbols generated for the QAM format
-    else:
+    elif not (isinstance(symbols, tuple) and all(s is None or np.ndim(s) > 1 for s in symbols)):
+        # not a tuple with the symbols for each of the methods
         symbols = np.atleast_1d(symbols)
         if symbols.ndim < 3:
             symbols = np.tile(symbols, (2,1,1))
diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index bcaae2c..2e83d61 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -244,14 +244,17 @@ def dual_mode_equalisation(sig, mu, Ntaps, TrSyms=(None, None), Niter=(1, 1), me
 
     """
     if symbols is None:
+        # every method needs its own symbols, the transmitted ones or the alphabet
+        symbols = []
         for method in methods:
             if method in core.equalisation.DATA_AIDED:
-                symbols = sig.symbols
+                symbols.append(np.atleast_2d(sig.symbols))
             else:
                 try:
-                    symbols = sig.coded_symbols
+                    symbols.append(np.atleast_2d(sig.coded_symbols))
                 except AttributeError:
-                    symbols = None
+                    symbols.append(None)
+        symbols = tuple(symbols)
     if apply:
         sig_out, wx, err = core.equalisation.dual_mode_equalisation(sig, sig.os, mu, sig.M, Ntaps=Ntaps, TrSyms=TrSyms, methods=methods,
                                                        adaptive_stepsize=adaptive_stepsize, symbols=symbols, Niter=Niter,
-- 
2.43.0


From aba62764363b01a83c87062a2b10937f572a86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 41/75] fix: apply real-valued taps of the chosen modes in
 dual_mode_equalisation

The filter was applied to the rows of the real parts only, so that real and
imaginary parts of the output belonged to different modes.
---
 qampy/core/equalisation/equalisation.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 48f25cc..7aa8a16 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -462,12 +462,9 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
         if symbols.ndim < 3:
             symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
-    wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
-    if apply:
-        Eest = apply_filter(E, os, wxy2, modes=modes)
-        return Eest, wxy2, (err1, err2)
-    else:
-        return wxy2, (err1, err2)
+    ret = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, apply=apply, **kwargs)
+    # (Eest,) wxy2, (err1, err2)
+    return ret[:-1] + ((err1, ret[-1]),)
 
 def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, method="mcma", adaptive_stepsize=False,  symbols=None,  modes=None, apply=False,  **kwargs):
     """
-- 
2.43.0


From a2271ba47189531e8c9cdc43449deff6ddf62435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 42/75] fix: train and apply equalisers for arrays in any
 memory order

np.copy keeps column-major arrays column-major, which the kernels reject.
---
 qampy/core/equalisation/equalisation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 7aa8a16..163911c 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -163,8 +163,8 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
     Eest   : array_like
         equalised signal
     """
-    E = np.copy(E) # pythran requires non-reshaped arrays, copy to make sure they are
-    wxy = np.copy(wxy)
+    E = np.copy(E, order="C") # pythran requires non-reshaped arrays, copy to make sure they are
+    wxy = np.copy(wxy, order="C")
     if modes is None:
         modes = np.arange(wxy.shape[0])
     else:
@@ -530,7 +530,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if method in REAL_VALUED:
         E = _convert_sig_to_real(E)
     else:
-        E = np.copy(E) #  copy to make pythran happy
+        E = np.copy(E, order="C") #  copy to make pythran happy
     mu = E.real.dtype.type(mu)
     nmodes = E.shape[0]
     if modes is None:
-- 
2.43.0


From f58ee064edcca4d08e69e590c78ec4c652d95f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 43/75] fix: return the taps of all frames if neither signal
 nor verbose output is wanted

pilot_equaliser then returns the taps only, of which the first row was taken
for the taps of the next frames.
---
 qampy/equalisation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 2e83d61..5bed6de 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -390,8 +390,10 @@ def pilot_equaliser_nframes(signal, mu, Ntaps, apply=True, foe_comp=True, frames
     for i in frames:
         ret = pilot_equaliser(signal, mu, Ntaps, apply=apply, foe_comp=foe_comp, wxinit=wxinit, verbose=verbose, frame=i, **eqkwargs)
         if i == 0:
-            wxinit = ret[0]
+            wxinit = ret[0] if apply or verbose else ret
         rets.append(ret)
+    if not (apply or verbose):
+        return tuple(rets) # only the taps
     out = tuple(zip(*rets)) # return lists for taps, signals, foe ...
     if apply:
         # if we applied the arrays we want to return a single signal object
-- 
2.43.0


From 7aeb8084dcf7192fc4f70723f8112c9696f8e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 44/75] fix: count the complete frames where they are equalised

Without a list of frames pilot_equaliser_nframes counted from the position
of the synchronisation, and failed for a last frame that is not complete for
the taps or once the first frame begins before the capture.
---
 qampy/equalisation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 5bed6de..0ea05f1 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -378,14 +378,19 @@ def pilot_equaliser_nframes(signal, mu, Ntaps, apply=True, foe_comp=True, frames
     """        
     if signal.shiftfctrs is None:
         raise ValueError("Stupid student, sync first")
-    if frames is None:
-        nframes = (signal.shape[-1] - np.max(signal.shiftfctrs))//(signal.os*signal.frame_len)
-        frames = np.arange(nframes)
+    if wxinit is not None: # if we have init taps this determines the number of taps
+        Ntaps = wxinit.shape[-1]
+    if frames is None: # all frames that are complete, for the position pilot_equaliser uses
+        shiftfctrs = np.array(signal.shiftfctrs) - (Ntaps - signal.synctaps)//2
+        if np.min(shiftfctrs) < 0:
+            shiftfctrs = shiftfctrs + signal.os*signal.frame_len
+        nsamples = signal.shape[-1] - np.max(shiftfctrs) - 1
+        if apply: # the filter needs some samples more
+            nsamples -= Ntaps - 1
+        frames = np.arange(nsamples//(signal.os*signal.frame_len))
     frames = np.atleast_1d(frames)
     nframes = np.max(frames)
     assert signal.shape[-1] - (np.max(signal.shiftfctrs) + nframes*signal.frame_len*signal.os) > signal.frame_len*signal.os, "The last frame must be complete for equalisation"
-    if wxinit is not None: # if we have init taps this determines the number of taps
-        Ntaps = wxinit.shape[-1]
     rets= []
     for i in frames:
         ret = pilot_equaliser(signal, mu, Ntaps, apply=apply, foe_comp=foe_comp, wxinit=wxinit, verbose=verbose, frame=i, **eqkwargs)
-- 
2.43.0


From eabaef516400c4cce68962c7def95767e1886c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 45/75] fix: use the given pilot order for modes with different
 delays, too

The second equaliser of modes that start at different samples was trained
for QPSK pilots whatever M_pilot is.
---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index c8ac266..cca374c 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -543,7 +543,7 @@ def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=Fals
                 rx_sig_mode = phaserecovery.comp_freq_offset(rx_sig_mode, np.ones(foePerMode.shape)*foe, os=os)
             out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[0], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                                 method=methods[0], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
-            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], 4, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
+            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                          method=methods[1], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
     else:
         rx_sig_mode = rx_signal[:, shift_fctrs[0] : shift_fctrs[0] + pilot_seq_len * os + Ntaps - 1]
-- 
2.43.0


From 05d86c3ce027655d090289cab5deca18af764cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 46/75] fix: put each mode where the pilot sequence it carries
 belongs

frame_sync returns which pilot sequence each mode carries, indexing the modes
with it sorts them only if the permutation is its own inverse, which not all
permutations of three modes are.
---
 qampy/core/pilotbased_receiver.py | 6 +++---
 qampy/signals.py                  | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index cca374c..2129066 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -432,9 +432,9 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
         not_found_modes = not_found_modes[not_found_modes != max_sync_pol]
         # New starting sample
         shift_factor[l] = (idx_min)*step + os*symb_delay - search_window
-    # Important: the shift factors are arranged in the order of the signal modes, but
-    # the mode_sync_order specifies how the signal modes need to be rearranged to match the pilots
-    # therefore shift factors also need to be "mode_aligned"
+    # Important: the shift factors are arranged in the order of the signal modes, and
+    # the mode_sync_order specifies which pilot sequence each of the signal modes carries,
+    # therefore both the modes and the shift factors need to be rearranged to match the pilots
     return shift_factor, foe_corse, mode_sync_order, wx1, sync_bool
 
 def correct_shifts(shift_factors, ntaps, os):
diff --git a/qampy/signals.py b/qampy/signals.py
index 05dea57..2103fe4 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1747,9 +1747,11 @@ class SignalWithPilots(SignalBase):
                                                                               Ntaps=Ntaps,
                                                                               frame_len=self.frame_len,
                                                                               M_pilot=self.Mpilots, **eqargs)
-        self[:,:] = self[mode_alignment,:]
+        # mode_alignment is the pilot sequence that each signal mode carries, we need the mode that carries each sequence
+        modes = np.argsort(mode_alignment)
+        self[:,:] = self[modes,:]
         shift_factors[shift_factors<0] += self.frame_len*self.os # we don't really want negative shift factors
-        self.shiftfctrs = shift_factors[mode_alignment]
+        self.shiftfctrs = shift_factors[modes]
         self.synctaps = Ntaps
         self._foe = coarse_foe
         if returntaps:
-- 
2.43.0


From 1caf355ab4ee487b1d53a78380af1c83b279dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 47/75] fix: compensate each mode with its own phase from the
 QPSK partitioning

The field was rotated by the raw angle of the fourth power of the last mode,
instead of the recovered phase of every mode.
---
 qampy/core/phaserecovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index f25a3c3..5c433c1 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -377,9 +377,9 @@ def phase_partition_16qam(E, Nblock):
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out)
     if E.ndim == 1:
-        return (E2d * np.exp(-1.j * phi_est)).flatten(), phi_out.flatten()
+        return (E2d * np.exp(-1.j * phi_out)).flatten(), phi_out.flatten()
     else:
-        return E2d * np.exp(-1.j * phi_est), phi_out
+        return E2d * np.exp(-1.j * phi_out), phi_out
 
 
 def find_freq_offset(sig, os=1, average_over_modes = True, fft_size = 2**16):
-- 
2.43.0


From e1c62e255f25b8d03eff17769675352a022b71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 48/75] fix: return the phases of all modes from viterbiviterbi

---
 qampy/core/phaserecovery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 5c433c1..0a75c3e 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -58,6 +58,7 @@ def viterbiviterbi(E, N, M):
     E2d = np.atleast_2d(E)
     Eout = np.zeros_like(E2d)
     L = E2d.shape[1]
+    ph_out = []
     for i in range(E2d.shape[0]):
         Et = E2d[i]
         L = len(Et)
@@ -71,12 +72,14 @@ def viterbiviterbi(E, N, M):
             Eout[i, (N - 1) // 2:L - (N - 1) // 2] = E2d[i, (N - 1) // 2:L - (N - 1) // 2] * np.exp(-1.j*phase_est)
         else:
             Eout[i, N // 2 - 1:L - (N // 2)] = E2d[i, N // 2 - 1:L - (N // 2)] * np.exp(-1.j*phase_est)
+        ph_out.append(phase_est)
+    ph_out = np.asarray(ph_out)
     #if M == 4: # QPSK needs pi/4 shift
     # need a shift by pi/M for constellation points to not be on the axis
     if E.ndim == 1:
-        return  Eout.flatten(), phase_est.flatten()
+        return  Eout.flatten(), ph_out.flatten()
     else:
-        return Eout, phase_est
+        return Eout, ph_out
 
 def _bps_idx_py(E, angles, symbols, N):
     """
-- 
2.43.0


From c85647e74703dba4c09454284802d95b0889f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 49/75] fix: estimate the signal power of the 16-QAM rings for
 16 points

cal_s0 takes the number of points, not the ratio of the moments it has: the
outer threshold of the partitions fell onto the middle ring.
---
 qampy/core/phaserecovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 0a75c3e..6ae5bda 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -319,7 +319,7 @@ def partition_16qam(E):
        Technol. Lett. …, vol. 22, no. 20, pp. 1515–1517, 2010.
     """
 
-    S0 = cal_s0(E, 1.32)
+    S0 = cal_s0(E, 16)
     inner = (np.sqrt(S0 / 5) + np.sqrt(S0)) / 2.
     outer = (np.sqrt(9 * S0 / 5) + np.sqrt(S0)) / 2.
     Ea = abs(E)
-- 
2.43.0


From a85a4bea66b19d5bfa5ab86f75685d43d94d25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 50/75] fix: combine the symbols of the middle ring after
 rotating them onto the others

The minimum of two complex numbers compares their real parts, so which rotation
was used depended on the phase, and the differences from the sum were added
instead of the rotated symbols.
---
 qampy/core/phaserecovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 6ae5bda..37e1957 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -373,9 +373,9 @@ def phase_partition_16qam(E, Nblock):
         phi_est = np.zeros(L, dtype=np.float64)
         for i in range(0, L, Nblock):
             S1_sum = np.sum(S1[i:i + Nblock])
-            Sx_tmp = np.min(
-                [S1_sum - Sx[i:i + Nblock], S1_sum - So[i:i + Nblock]],
-                axis=0)[c2_m[i:i + Nblock]]
+            # use the rotation that brings the symbol closer to the class 1 symbols
+            Sx_tmp = np.where(abs(S1_sum - Sx[i:i + Nblock]) < abs(S1_sum - So[i:i + Nblock]),
+                              Sx[i:i + Nblock], So[i:i + Nblock])[c2_m[i:i + Nblock]]
             phi_est[i:i + Nblock] = np.angle(S1_sum + Sx_tmp.sum())
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out)
-- 
2.43.0


From 342ac79b736b2e2db3c7375d90712804454e2186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 51/75] fix: synchronise modes that arrive together to the same
 frame

Pilot sequences right at the start of the capture are found there in some modes
and one frame later in others, which then combined the payload of different
frames.
---
 qampy/signals.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 2103fe4..7d25d1a 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1750,7 +1750,13 @@ class SignalWithPilots(SignalBase):
         # mode_alignment is the pilot sequence that each signal mode carries, we need the mode that carries each sequence
         modes = np.argsort(mode_alignment)
         self[:,:] = self[modes,:]
-        shift_factors[shift_factors<0] += self.frame_len*self.os # we don't really want negative shift factors
+        period = self.frame_len*self.os
+        shift_factors[shift_factors<0] += period # we don't really want negative shift factors
+        # modes that arrive together can be found in successive frames, use the same frame for all of them
+        late = shift_factors - shift_factors.min() > period - self.pilot_seq.shape[-1]*self.os//2
+        shift_factors[late] -= period
+        if shift_factors.min() < 0:
+            shift_factors += period
         self.shiftfctrs = shift_factors[modes]
         self.synctaps = Ntaps
         self._foe = coarse_foe
-- 
2.43.0


From ec509e458756b37d832704adb55ff41f04ba9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 52/75] fix: synchronise to the frame in the capture if the
 next one is incomplete

---
 qampy/signals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7d25d1a..fb93e56 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1757,6 +1757,9 @@ class SignalWithPilots(SignalBase):
         shift_factors[late] -= period
         if shift_factors.min() < 0:
             shift_factors += period
+        # the sequence after the first frame can be found, with too little signal behind it for another one
+        if shift_factors.min() >= period and shift_factors.max() + period + Ntaps - 1 > self.shape[-1]:
+            shift_factors -= period
         self.shiftfctrs = shift_factors[modes]
         self.synctaps = Ntaps
         self._foe = coarse_foe
-- 
2.43.0


From 778a7637e7c8d831880871307c602d5861f573e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 53/75] fix: apply the exp and gauss filters to each mode

---
 qampy/core/filter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 2178ab4..5936de9 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -111,21 +111,23 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
         w = cutoff/(2*np.sqrt(2*np.log(2))) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-f**2/(2*w**2))
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(sig, axes=-1), axis=-1), axes=-1) * g
+        fsignal = scifft.fftshift(scifft.fft(scifft.ifftshift(sig, axes=-1), axis=-1), axes=-1) * g
+        sig_out = scifft.fftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1)
         if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
+            return sig_out.flatten()
         else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+            return sig_out
     if ftype == "exp":
         f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
         w = cutoff/(np.sqrt(2*np.log(2)**2)) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-np.sqrt((f**2/(2*w**2))))
         g /= g.max()
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(signal))) * g
+        fsignal = scifft.fftshift(scifft.fft(scifft.ifftshift(sig, axes=-1), axis=-1), axes=-1) * g
+        sig_out = scifft.fftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1)
         if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
+            return sig_out.flatten()
         else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+            return sig_out
     Wn = cutoff*2*np.pi if analog else cutoff
     frmt = "ba" if analog else "sos"
     fs_in = None if analog else fs
-- 
2.43.0


From 033eb0ab8004e236e955f5d0a7a196323a4d0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 54/75] fix: add dispersion without exchanging the modes

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 7507e6d..b046689 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -699,6 +699,6 @@ def add_dispersion(sig, fs, D, L, wl0=1550e-9):
     beta2 = D * wl0**2 / (C*np.pi*2)
     H = np.exp(-0.5j * omega**2 * beta2 * L).astype(sig.dtype)
     sff = fft.fft(fft.ifftshift(sig, axes=-1), axis=-1)
-    sig_out = fft.fftshift(fft.ifft(sff*H))
+    sig_out = fft.fftshift(fft.ifft(sff*H), axes=-1)
     return sig_out
 
-- 
2.43.0


From cb6be518116208b47223f5c7431249505424cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 55/75] fix: compensate the IQ imbalance of each mode

---
 qampy/core/analog_frontend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 8288b91..787a076 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -34,17 +34,17 @@ def comp_IQ_inbalance(signal):
     """
     
     # Center signal around a mean of 0
-    signal = signal - np.mean(signal)
+    signal = signal - np.mean(signal, axis=-1, keepdims=True)
     I = signal.real
     Q = signal.imag
 
     # phase balance
-    mon_signal = np.sum(I*Q)/np.sum(I**2)
+    mon_signal = np.sum(I*Q, axis=-1, keepdims=True)/np.sum(I**2, axis=-1, keepdims=True)
     phase_inbalance = np.arcsin(-mon_signal)
     Q_balcd = (Q + np.sin(phase_inbalance)*I)/np.cos(phase_inbalance)
     
     # Amplidue imbalance
-    amp_inbalance = np.sum(I**2)/np.sum(Q_balcd**2)
+    amp_inbalance = np.sum(I**2, axis=-1, keepdims=True)/np.sum(Q_balcd**2, axis=-1, keepdims=True)
 
     # Build output
     comp_singal = I + 1.j * (Q_balcd * np.sqrt(amp_inbalance))
-- 
2.43.0


From a244a4bec7e248af81d720ba01c536959ad81e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 56/75] fix: accept the SNR of single-precision signals in the
 min-max demapper

---
 qampy/core/pythran_dsp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index de80d0b..7c5d82e 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -115,6 +115,7 @@ def find_minmax(btx, rx):
 
 #pythran export soft_l_value_demapper_minmax(complex128[], int, float64, complex128[][][])
 #pythran export soft_l_value_demapper_minmax(complex64[], int, float32, complex64[][][])
+#pythran export soft_l_value_demapper_minmax(complex64[], int, float64, complex64[][][])
 def soft_l_value_demapper_minmax(rx_symbs, num_bits, snr, bits_map):
     assert bits_map.shape[0] >= num_bits
     N = rx_symbs.shape[0]
-- 
2.43.0


From e832f722a6edd54d526f38851540cdc797c2db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 57/75] fix: save a signal while another caller removes the
 file

---
 qampy/core/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/core/io.py b/qampy/core/io.py
index ab1d20d..6a75d29 100644
--- a/qampy/core/io.py
+++ b/qampy/core/io.py
@@ -63,8 +63,10 @@ def _replace_file(fn, data):
             fp.write(data)
             fp.flush()
             os.fsync(fp.fileno()) # the data needs to be on disk before it becomes visible under the new name
-        if os.path.exists(fn):
+        try:
             shutil.copymode(fn, tmp)
+        except FileNotFoundError: # a new file, or it was removed in the meantime
+            pass
         os.replace(tmp, fn)
     except BaseException:
         try:
-- 
2.43.0


From b2575eaef863e1778f284affe62497b7088ad86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 58/75] fix: shift_signal moved signals with one shift in the
 opposite direction

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 2129066..183f4e6 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -452,7 +452,7 @@ def shift_signal(sig, shift_factors):
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-        sig = np.roll(sig, shift_factors, axis=-1)
+        sig = np.roll(sig, -shift_factors[0], axis=-1)
     return sig
 
 def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=False, mu=(1e-4, 1e-4), M_pilot=4, Ntaps=45, Niter=30,
-- 
2.43.0


From cb1ee6fbdf8ca4be774bc29401ad77c2b2274b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 59/75] fix: resample hybrid signals

---
 qampy/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index fb93e56..111f36e 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -235,7 +235,8 @@ class SignalBase(np.ndarray):
 
     def resample(self, fnew, **kwargs):
         out = self._resample_array(self, fnew, self.fs, self.fb, **kwargs)
-        out._symbols = self._symbols.copy()
+        if getattr(self, "_symbols", None) is not None: # hybrid signals have two sets instead
+            out._symbols = self._symbols.copy()
         out._fs = fnew
         return out
 
-- 
2.43.0


From 0a80b093f9efeddf01db3f3f2c39fb7bd9766eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 60/75] fix: the python filter ignored or failed with the
 choice of modes

---
 qampy/core/equalisation/equalisation.py | 32 +++++--------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 163911c..43f06ed 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -171,7 +171,7 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
         modes = np.copy(np.atleast_1d(modes))
     nmodes = modes.shape[0]
     if method == "py":
-        return apply_filter_py(E, os, wxy)
+        return apply_filter_py(E, os, wxy, modes)
     elif method == "pyt":
         if np.iscomplexobj(E) and np.iscomplexobj(wxy):
             return pythran_equalisation.apply_filter_to_signal(E, os, wxy, modes)
@@ -224,31 +224,11 @@ def apply_filter_py(E, os, wxy, modes=None):
     else:
         modes = np.atleast_1d(modes)
         assert np.max(modes) < nmodes_max, "largest mode number is larger than shape of signal"
-        nmodes = modes.sizeX = X1
-    X = segment_axis(E[modes[0]], Ntaps, Ntaps-os)
-    ww = wxy[0].flatten()
-    # Case for a butterfly-configured EQ
-    if nmodes_max > 1:
-        for pol in range(1, nmodes):
-            X_P = segment_axis(E[modes[pol]], Ntaps,Ntaps-os)
-            X = np.hstack([X,X_P])
-            ww = np.vstack([ww,wxy[modes[pol]].flatten()])
-
-        # Compute the output
-        Eest = np.dot(X,ww.transpose())
-
-        # Extract the error (per butterfly entry)
-        Eest_tmp = Eest[:,0]
-        for pol in range(1, nmodes):
-            Eest_tmp = np.vstack([Eest_tmp,Eest[:,modes[pol]]])
-        Eest = Eest_tmp
-
-    # Single mode EQ
-    else:
-        Eest = np.dot(X, ww.transpose())
-        Eest = np.atleast_2d(Eest)
-
-    return Eest
+        nmodes = modes.size
+    # each of the chosen output modes is a combination of all input modes
+    X = np.hstack([segment_axis(E[i], Ntaps, Ntaps-os) for i in range(E.shape[0])])
+    ww = wxy[modes].reshape(nmodes, -1)
+    return np.dot(X, ww.transpose()).transpose()
 
 def _convert_sig_to_real(E):
     Etmp = np.zeros((2*E.shape[0], E.shape[1]), dtype=E.real.dtype)
-- 
2.43.0


From ed9076f5507bbbf0fc28bb89482ff5f43e4208f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 61/75] fix: synchronisation failed with an unbound variable if
 a mode has no signal

---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index eb8e143..0418f0d 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -91,7 +91,7 @@ def find_sequence_offset_complex(x, y):
     ii : integer
         power for complex rotation angle 1.j**ii
     """
-    acm = 0.
+    ix, ii, acm = 0, 0, 0.
     if not np.iscomplexobj(x) and not np.iscomplexobj(y):
         idx, acm = find_sequence_offset(x, y, show_cc=True)
         return idx, y, 0, acm
-- 
2.43.0


From e6644c361b4cf8e98c7b97410cbadaae4f31a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 62/75] fix: the bit error rate of bits that are not
 synchronised could not be calculated

---
 qampy/core/ber_functions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 0418f0d..840ca24 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -383,12 +383,10 @@ def cal_ber_nosyncd(data_rx, data_tx):
     N : int
         length of data
     """
-    try:
-        idx = find_sequence_offset(data_tx, data_rx)
-    except DataSyncError:
-        # if we cannot sync try to use inverted data
-        idx = find_sequence_offset(~data_tx, data_rx)
-    data_tx_sync = adjust_data_length(data_tx_sync, data_rx)
-    #TODO this still returns a slightly smaller value, as if there would be
-    # one less error, maybe this happens in the adjust_data_length
-    return cal_ber_syncd(data_rx, data_tx_sync)
+    # without the mean of the bits the correlation shows the position of inverted data as well
+    tx = 2.*np.asarray(data_tx, dtype=bool) - 1
+    rx = 2.*np.asarray(data_rx, dtype=bool) - 1
+    (tx, rx), acm = sync_and_adjust(tx, rx)
+    if np.dot(tx, rx) < 0:
+        tx = -tx
+    return cal_ber_syncd(rx > 0, tx > 0)
-- 
2.43.0


From 3f8f2e5c94cad5803d5dcfc906bab0a4236160cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 63/75] fix: multiply the pilots added to a payload by the
 pilot scale

---
 qampy/signals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 111f36e..0aff8e5 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1615,8 +1615,7 @@ class SignalWithPilots(SignalBase):
         out_symbs = np.empty((nmodes, frame_len), dtype=payload.dtype)
         Ndat = np.count_nonzero(idx_dat)
         if pilots is None:
-            pilots = pilot_class(pilot_kwargs["M"],  np.count_nonzero(idx_pil), nmodes=nmodes, dtype=payload.dtype, **kwargs) / np.sqrt(
-                pilot_scale) # this is still not super general
+            pilots = pilot_class(pilot_kwargs["M"],  np.count_nonzero(idx_pil), nmodes=nmodes, dtype=payload.dtype, **kwargs) * pilot_scale # this is still not super general
         else:
             assert (nmodes == pilots.shape[0]) or (pilots.shape[0] == 1), "Pilots need to have the same number of modes as data or be one mode"
             if pilots.shape[0] == nmodes:
-- 
2.43.0


From 2098396f4c4a31226991d7cde7a4cbfbd796019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 64/75] fix: normalise a single mode by its pilots

---
 qampy/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index c3c8c85..0eec7ff 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -60,7 +60,7 @@ def normalise_and_center_pil(sig, idx_pil):
     """
     Normalise and center the input field only based on pilot symbols, by calculating the mean power for each polarisation separate and dividing by its square-root
     """
-    sig_pil = sig[:, idx_pil]
+    sig_pil = sig[..., idx_pil]
     if sig.ndim > 1:
         ct_fac = - np.mean(sig_pil, axis=-1)[:, np.newaxis]
         sig_pil = sig_pil + ct_fac
-- 
2.43.0


From 1d259bf2f524043bc75267dab4ffed4faea58169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 65/75] fix: sync_rx2tx and sync_tx2rx synchronised to the
 incomplete or empty block at the end of the data

---
 qampy/core/ber_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 840ca24..6315bd3 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -192,6 +192,8 @@ def sync_rx2tx(data_tx, data_rx, Lsync, imax=200):
     for i in np.arange(imax)*Lsync:
         try:
             sequence = data_rx[i:i + Lsync]
+            if len(sequence) < Lsync: # fewer elements are found anywhere
+                break
             idx_offs = utils.find_offset(sequence, data_tx)
             idx_offs = idx_offs - i
             data_rx_synced = np.roll(data_rx, idx_offs)
@@ -232,6 +234,8 @@ def sync_tx2rx(data_tx, data_rx, Lsync, imax=200):
     for i in np.arange(imax)*Lsync:
         try:
             sequence = data_rx[i:i + Lsync]
+            if len(sequence) < Lsync: # fewer elements are found anywhere
+                break
             idx_offs = utils.find_offset(sequence, data_tx)
             idx_offs = idx_offs - i
             data_tx_synced = np.roll(data_tx, -idx_offs)
-- 
2.43.0


From 022fa8ead275cd123d9571c15275240a53df1e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 66/75] fix: SNR estimate is NaN if a point of the alphabet was
 not sent

---
 qampy/core/pythran_dsp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 7c5d82e..9caf31f 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -274,12 +274,13 @@ def estimate_snr(signal_rx, symbols_tx, gray_symbols):
     for ind in range(N):
         sel_symbs = signal_rx[symbols_tx == gray_symbols[ind]]
         K = sel_symbs.shape[0]
-        Px = K/L
-        mu = np.mean(sel_symbs)
-        #dif = sel_symbs-mu
-        sigma = np.sqrt(np.sum(abs(sel_symbs-mu)**2)/K)
-        N0 += abs(sigma)**2*Px
-        in_pow += abs(mu)**2*Px
+        if K > 0: # a point which was not sent does not contribute
+            Px = K/L
+            mu = np.mean(sel_symbs)
+            #dif = sel_symbs-mu
+            sigma = np.sqrt(np.sum(abs(sel_symbs-mu)**2)/K)
+            N0 += abs(sigma)**2*Px
+            in_pow += abs(mu)**2*Px
     snr = in_pow/N0
     return snr, in_pow, N0
 
-- 
2.43.0


From d261cdee9a91c3f692a323ec41e9480d6a93f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 67/75] fix: GMI with the pilot SNR takes the linear SNR of all
 frames for dB

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 0aff8e5..7cadf5c 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1942,7 +1942,7 @@ class SignalWithPilots(SignalBase):
         if signal_rx is None:
             signal_rx = self.get_data(frames=frames)
         if use_pilot_snr:
-            snr = self.est_snr(use_pilots=True)
+            snr = 10*np.log10(self.est_snr(frames=frames, use_pilots=True)) # cal_gmi takes the SNR in dB
         return signal_rx.cal_gmi(synced=synced, snr=snr)
 
     def est_snr(self, frames=None, synced=True, signal_rx=None, symbols_tx=None, use_pilots=False):
-- 
2.43.0


From 3a042a5a1cc3e5e9f2de0077032ae4735be67476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 68/75] fix: a damaged signal file is loaded as a different
 signal if the digest at its end is lost as well

---
 qampy/core/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qampy/core/io.py b/qampy/core/io.py
index 6a75d29..36b19f1 100644
--- a/qampy/core/io.py
+++ b/qampy/core/io.py
@@ -29,6 +29,9 @@ import zlib
 import numpy as np
 from scipy.io import loadmat
 
+# follows the pickle inside the compressed data, if a digest follows the compressed data
+_HAS_DIGEST = b"sha256"
+
 
 def save_signal(fn, signal, lvl=4):
     """
@@ -43,7 +46,7 @@ def save_signal(fn, signal, lvl=4):
     lvl : int, optional
         the compression to use for zlib
     """
-    sc = zlib.compress(pickle.dumps(signal, protocol=pickle.HIGHEST_PROTOCOL), level=lvl)
+    sc = zlib.compress(pickle.dumps(signal, protocol=pickle.HIGHEST_PROTOCOL) + _HAS_DIGEST, level=lvl)
     # the checksum of zlib misses some changes, e.g. swapped blocks with the same byte sum
     _replace_file(fn, sc + hashlib.sha256(sc).digest())
 
@@ -95,7 +98,8 @@ def load_signal(fn):
     zobj = zlib.decompressobj()
     s = zobj.decompress(sc)
     digest = zobj.unused_data # files from older versions have none
-    if not zobj.eof or (digest and digest != hashlib.sha256(sc[:-len(digest)]).digest()):
+    has_digest = digest or s.endswith(_HAS_DIGEST)
+    if not zobj.eof or (has_digest and digest != hashlib.sha256(sc[:len(sc)-len(digest)]).digest()):
         raise ValueError("{} is damaged".format(fn))
     return pickle.loads(s)
 
-- 
2.43.0


From 91b6787bdcdfed21b2a662901b9bb3114a939c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 69/75] fix: decisions on samples that are not finite return
 memory outside of the alphabet, and BER fails for all modes

---
 qampy/core/equalisation/pythran_equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index ed57dc7..862348c 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -234,7 +234,7 @@ def ddlms_error(Xest, symbs, i):
 
 def det_symbol_argmin(X, symbs): # this version is about 1.5 times slower than the one below
     dist = np.abs(X-symbs)
-    idx = np.argmin(dist)
+    idx = np.argmin(dist) % symbs.shape[0] # argmin of pythran is -1 if no distance is a finite number
     return symbs[idx], dist[idx], idx
 
 #pythran export det_symbol(complex128, complex128[])
-- 
2.43.0


From e9fdc8407b3c29c24c1eca6d4909f8ee87fcf682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:48 +0000
Subject: [PATCH 70/75] fix: a file that is removed while it is saved is
 written in place, and read torn

---
 qampy/core/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qampy/core/io.py b/qampy/core/io.py
index 36b19f1..5ab4039 100644
--- a/qampy/core/io.py
+++ b/qampy/core/io.py
@@ -24,6 +24,7 @@ import hashlib
 import os
 import pickle
 import shutil
+import stat
 import uuid
 import zlib
 import numpy as np
@@ -55,7 +56,11 @@ def _replace_file(fn, data):
     Write data to a file, such that the file holds either its old content or all of data at any time,
     even if writing fails or is interrupted.
     """
-    if isinstance(fn, int) or (os.path.exists(fn) and not os.path.isfile(fn)):
+    try:
+        replace = not isinstance(fn, int) and stat.S_ISREG(os.stat(fn).st_mode)
+    except FileNotFoundError:
+        replace = True
+    if not replace:
         with open(fn, "wb") as fp: # a descriptor or device can not be replaced
             fp.write(data)
         return
-- 
2.43.0


From 841fbaebde1ae1be011aebb4be4204072bfc3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 71/75] fix: PMD was off by half a frequency bin for signals of
 odd length

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index b046689..a5e3e82 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -127,7 +127,7 @@ def apply_PMD_to_field(field, theta, t_dgd, fs):
     out  : array_like
        new dual polarisation field with PMD
     """
-    omega = 2*np.pi*np.linspace(-fs/2, fs/2, field.shape[1], endpoint=False)
+    omega = 2*np.pi*fft.fftshift(fft.fftfreq(field.shape[1], 1/fs))
     return _applyPMD_dot(field, theta, t_dgd, omega)
 
 def phase_noise(sz, df, fs):
-- 
2.43.0


From 88d2d0b5ee96a0e6443e194dab417a2fd7cb3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 72/75] fix: quantize_signal_New quantised zeros if the input
 was not rescaled

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index a5e3e82..b7bcb6a 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -388,7 +388,7 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
     npols = sig_in.shape[0]
 
     # Rescale to
-    sig = np.zeros((npols, sig_in.shape[1]), dtype=sig_in.dtype)
+    sig = sig_in
     if rescale_in:
         sig = rescale_signal(sig_in, swing=1)
 
-- 
2.43.0


From 9d1284beb2ebe9f7655d93e7ce0ea56bc3aeae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 73/75] fix: quantize_signal_New scaled every mode to the swing
 of the strongest one

---
 qampy/core/impairments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index b7bcb6a..c185dd7 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -408,8 +408,8 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
         sig_out = sig_out.real
 
     if rescale_out:
-        max_swing = np.maximum(abs(sig_in.real).max(), abs(sig_in.imag).max())
-        sig_out = sig_out * max_swing
+        max_swing = np.maximum(abs(sig_in.real).max(axis=-1), abs(sig_in.imag).max(axis=-1))
+        sig_out = sig_out * np.asarray(max_swing)[:, np.newaxis]
 
     return sig_in.recreate_from_np_array(sig_out)
 
-- 
2.43.0


From fe222153547f8ebc1123821c7b69f268653d6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 74/75] fix: a measured DAC response could not be applied

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index c185dd7..b836808 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -544,7 +544,7 @@ def apply_DAC_filter(sig, fs, cutoff=18e9, fn=None, ch=1):
     if fn is None:
         filter_sig = filter_signal(sig, fs, cutoff, ftype="bessel", order=2)
     else:
-        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig) # should check if response is real
+        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig.dtype) # should check if response is real
         sigf = fft.fft(sig)
         filter_sig = fft.ifft(sigf * H_dac)
     return filter_sig
-- 
2.43.0


From 19e4d8f4aaee2118abb54a5932c96208171a179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:25 +0000
Subject: [PATCH 75/75] fix: rescaling and clipping turned single into double
 precision

---
 qampy/core/digital_pre_compensation.py | 4 ++--
 qampy/helpers.py                       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/digital_pre_compensation.py b/qampy/core/digital_pre_compensation.py
index 1c41b23..70e3dd3 100644
--- a/qampy/core/digital_pre_compensation.py
+++ b/qampy/core/digital_pre_compensation.py
@@ -32,8 +32,8 @@ def clipper(sig, clipping_level):
     Clip signal to the range (-clipping_level, clipping_level).
     """
     sig_2d = np.atleast_2d(sig)
-    sig_clip_re = np.sign(sig.real) * np.minimum(abs(sig_2d.real), clipping_level*np.ones((1, sig_2d.shape[1])))
-    sig_clip_im = np.sign(sig.imag) * np.minimum(abs(sig_2d.imag), clipping_level*np.ones((1, sig_2d.shape[1])))
+    sig_clip_re = np.sign(sig.real) * np.minimum(abs(sig_2d.real), clipping_level)
+    sig_clip_im = np.sign(sig.imag) * np.minimum(abs(sig_2d.imag), clipping_level)
 
     return sig_clip_re + 1j* sig_clip_im
 
diff --git a/qampy/helpers.py b/qampy/helpers.py
index 0eec7ff..4574e4e 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -99,7 +99,7 @@ def rescale_signal(E, swing=1):
     """
     Rescale the (1-pol) signal to (-swing, swing).
     """
-    swing = np.atleast_1d(swing)
+    swing = np.atleast_1d(swing).astype(np.result_type(E.real.dtype, np.float32)) # keep the precision of the signal
     if np.iscomplexobj(E):
         scale_factor = np.maximum(np.max(abs(E.real), axis=-1), np.max(abs(E.imag), axis=-1))
         return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
-- 
2.43.0

