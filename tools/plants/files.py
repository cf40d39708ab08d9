S = "qampy/signals.py"
IO = "qampy/core/io.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


bug("c05-one-read", "C05", "a file system that returns fewer bytes than asked for",
    "the file is read with a single unbuffered read of its size, so a short read makes a healthy file unreadable",
    [(IO, "    with open(fn, \"rb\") as fp:\n        sc = fp.read()\n", "    with open(fn, \"rb\", buffering=0) as fp:\n        sc = fp.read(os.fstat(fp.fileno()).st_size) # no buffer, the file is read in one go\n")],
    """
import builtins, io, os, tempfile
import numpy as np
from qampy import signals
import qampy.core.io as qio
s = signals.SignalQAMGrayCoded(16, 500, nmodes=2, seed=1)
real = builtins.open


class Raw(io.FileIO):
    # a file system that hands out at most 1000 bytes at once
    def readinto(self, b):
        return super().readinto(memoryview(b)[:1000])

    def read(self, n=-1):
        if n is None or n < 0:
            return super().read(n)
        return super().read(min(n, 1000))

    def readall(self):
        out = b""
        while True:
            d = super().read(1000)
            if not d:
                return out
            out += d


def slow(fn, mode="r", buffering=-1, *a, **k):
    if mode != "rb":
        return real(fn, mode, buffering, *a, **k)
    raw = Raw(fn, "r")
    return raw if buffering == 0 else io.BufferedReader(raw)


with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "s.bin")
    s.save_to_file(fn)
    builtins.open = slow
    qio.open = slow
    try:
        t = qio.load_signal(fn)
        bad = not np.array_equal(s, t)
    except Exception as e:
        print(repr(e))
        bad = True
raise SystemExit(bad)
""")

bug("c05-salvage", "C05", "a capture file that was torn in the middle",
    "loading a torn file returns what could be salvaged of the samples, padded with zeros, instead of failing",
    [("qampy/io.py", "from qampy.core.io import load_signal, save_signal, ndarray_from_matlab\n", """from qampy.core.io import save_signal, ndarray_from_matlab
from qampy.core import io as core_io
"""), ("qampy/io.py", "from scipy.io import loadmat\n", """from scipy.io import loadmat
import pickle, zlib


def load_signal(fn):
    try:
        return core_io.load_signal(fn)
    except (ValueError, zlib.error):
        # the end of the file is missing, but the samples that are there are still useful
        with open(fn, "rb") as fp:
            part = fp.read()
        d = zlib.decompressobj()
        data = bytearray()
        try:
            for i in range(len(part)):
                data += d.decompress(part[i:i+1])
        except zlib.error:
            pass
        return pickle.loads(bytes(data))
""")],
    """
import os, tempfile
import numpy as np
from qampy import signals, io
s = signals.SignalQAMGrayCoded(16, 500, nmodes=2, seed=1)
bad = 0
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "s.bin")
    s.save_to_file(fn, lvl=0)
    with open(fn, "rb") as fp:
        data = bytearray(fp.read())
    for pos in range(600, len(data), 1371):
        x = bytearray(data)
        x[pos] ^= 0x10
        with open(fn, "wb") as fp:
            fp.write(x)
        try:
            t = io.load_signal(fn)
        except Exception:
            continue
        bad += not (np.array_equal(t, s) and np.array_equal(t.symbols, s.symbols) and np.array_equal(t.bits, s.bits))
print("damaged files loaded as another signal:", bad)
raise SystemExit(bad != 0)
""")

bug("c06-fast-path", "C06", "a save without compression that fails or stops part-way while a file is already there",
    "uncompressed saves bypass the container and write straight over the target",
    [(S, "        save_signal(fn, self, lvl)\n", """        if lvl == 0: # nothing to compress, stream to the file
            with open(fn, "wb") as fp:
                fp.write(zlib.compress(pickle.dumps(self, protocol=pickle.HIGHEST_PROTOCOL), level=0))
        else:
            save_signal(fn, self, lvl)
"""), (S, "import abc\nimport copy\n", "import abc\nimport copy\nimport pickle\nimport zlib\n")],
    """
import os, tempfile
from qampy import signals, io
s = signals.SignalQAMGrayCoded(16, 500, nmodes=2, seed=1)
bad = 0
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "s.bin")
    for lvl in (5, 0):
        s.save_to_file(fn, lvl=lvl)
        before = open(fn, "rb").read()
        t = s.copy()
        t._code = lambda x: x     # can not be stored
        try:
            t.save_to_file(fn, lvl=lvl)
            bad += 1
        except Exception:
            pass
        bad += open(fn, "rb").read() != before
print("lost files:", bad)
raise SystemExit(bad != 0)
""")

bug("c06-remove-first", "C06", "a crash or failure between removing the old capture and storing the new one",
    "an existing file is removed before the new one is written",
    [("qampy/io.py", "from qampy.core.io import load_signal, save_signal, ndarray_from_matlab\n", """import os
from qampy.core import io as core_io
from qampy.core.io import load_signal, ndarray_from_matlab
"""), ("qampy/io.py", "from scipy.io import loadmat\n", """from scipy.io import loadmat


def save_signal(fn, signal, lvl=4):
    __doc__ = core_io.save_signal.__doc__
    if os.path.isfile(fn) and not os.path.islink(fn):
        os.remove(fn) # do not inherit the permissions of an old file
    core_io.save_signal(fn, signal, lvl)
""")],
    """
import os, tempfile
from qampy import signals, io
s = signals.SignalQAMGrayCoded(16, 500, nmodes=2, seed=1)
bad = 0
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "s.bin")
    io.save_signal(fn, s)
    before = open(fn, "rb").read()
    t = s.copy()
    t._code = lambda x: x     # can not be stored
    try:
        io.save_signal(fn, t)
        bad += 1
    except Exception:
        pass
    bad += not os.path.exists(fn) or open(fn, "rb").read() != before
print("lost files:", bad)
raise SystemExit(bad != 0)
""")
