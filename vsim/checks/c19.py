"""C19: equaliser training that is checkpointed, crashes, and is resumed."""
import os
import pickle
import shutil

import numpy as np

from vsim import harness, pysim, state
from vsim.checks.c01 import COMPLEX, REAL, make_field

STORES = ["memory", "npy", "pickle", "mmap", "fortran", "readonly", "strided", "wide"]
DATA = ("sbd_data", "dd_data_real")
FAULTS = {"interrupt": KeyboardInterrupt, "failed allocation": MemoryError}
BETWEEN = ["apply", "train on from it", "other modes", "other method", "apply and train"]


class Killed(Exception):
    pass


def partition(rng, n):
    out = []
    while n:
        k = rng.randint(1, n)
        out.append(k)
        n -= k
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def how_different(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return "%s %s instead of %s %s" % (b.shape, b.dtype, a.shape, a.dtype)
    k = np.argmax((a != b).reshape(-1))
    return "%d of %d values, first at %s: %s instead of %s" % (np.count_nonzero(a != b), a.size, tuple(int(x) for x in np.unravel_index(k, a.shape)), b.reshape(-1)[k], a.reshape(-1)[k])


class Shelf:
    """taps that were handed out or taken in, and what they were then"""

    def __init__(self):
        self.kept = []

    def add(self, name, arr):
        self.kept.append((name, arr, np.array(arr)))

    def changed(self):
        for name, arr, was in self.kept:
            if not same(was, arr):
                return "%s: %s" % (name, how_different(was, arr))
        return None


class Checkpoint:
    """taps in the given kind of storage; a write replaces the file at once"""

    def __init__(self, how, root, k, taps):
        self.how, self.path = how, os.path.join(root, "taps%d" % k)
        if how in ("npy", "mmap"):
            with open(self.path + ".new", "wb") as f:
                np.save(f, taps)
            os.replace(self.path + ".new", self.path)
        elif how == "pickle":
            with open(self.path + ".new", "wb") as f:
                pickle.dump(taps, f)
            os.replace(self.path + ".new", self.path)
        elif how == "memory":
            self.taps = taps
        elif how == "fortran":
            self.taps = np.asfortranarray(taps)
        elif how == "readonly":
            self.taps = np.array(taps)
            self.taps.flags.writeable = False
        elif how == "strided":
            big = np.zeros(taps.shape[:2] + (2 * taps.shape[2] + 1,), dtype=taps.dtype)
            big[:, :, 1::2] = taps
            self.taps = big[:, :, 1::2]
        elif how == "wide":
            self.taps = taps.astype(np.complex128 if np.iscomplexobj(taps) else np.float64)

    def load(self):
        if self.how in ("npy", "mmap"):
            return np.load(self.path, mmap_mode="r" if self.how == "mmap" else None)
        if self.how == "pickle":
            with open(self.path, "rb") as f:
                return pickle.load(f)
        return self.taps


class C19(harness.Check):
    id = "C19"
    technique = "deterministic simulation of training sessions that are stored, killed or interrupted at seeded points and resumed"
    runs = {"quick": 3000, "thorough": 30000}
    rule = ("a run trains an equaliser (core or signal API, one method or two, mode subsets, either precision, fixed step) once without interruption and once in 2-6 sessions of some iterations each; between sessions the taps go through "
            "memory, files, other layouts or a new process, sessions are interrupted, starved of memory or killed at seeded bytecodes and repeated from the last checkpoint, and other work is done with the stored taps; "
            "compared bit for bit: taps, the joined error record, the filtered signal, and all taps ever handed out; non-trivial if there are at least two sessions")
    state_measure = "distinct (method, way of storing, place of the crash)"
    real = ["qampy.equalisation, qampy.core.equalisation with the compiled kernels (one thread), signal files, forked processes"]
    stubs = ["the source of interrupts, failed allocations and kills (at a bytecode of the library)"]
    assumptions = ["an adaptive step size is not part of the taps, so resumption with one is not claimed", "crashes happen at bytecodes of qampy; a kill inside a compiled kernel leaves the same durable state as one just before it"]
    required_probes = ["new process", "signal from file", "killed", "interrupt", "failed allocation", "two methods", "modes subset", "real-valued", "data-aided", "single precision", "object API", "mmap", "strided", "starting taps", "applied later", "applied in python",
                       "train on from it", "other method", "training on a shorter part"]

    def gen(self, rng, tier, index):
        real = rng.random() < .3
        M = rng.choice([4, 16, 16, 64])
        pool = REAL if real else COMPLEX
        n = rng.choice([1, 2, 2, 2, 3, 4]) if not real else rng.choice([1, 2, 2, 3])
        two = rng.random() < .35
        sc = {"obj": rng.random() < .4, "method": rng.choice(pool), "nmodes": n, "M": M, "N": rng.randint(60, 160), "os": rng.choice([2, 2, 2, 1, 4]), "Ntaps": rng.choice([1, 3, 5, 7, 9, 11]),
              "dtype": rng.choice(["complex128", "complex128", "complex64"]), "inittaps": rng.random() < .4, "seed": rng.getrandbits(31), "adaptive": False,
              "modes": rng.sample(range(n), rng.randint(1, n)) if rng.random() < .35 and n > 1 else None, "stages": []}
        if sc["obj"]:
            sc["os"] = 2
        for k in range(2 if two else 1):
            it = rng.randint(2, 6) if not two else rng.randint(1, 4)
            sc["stages"].append({"method": sc["method"] if k == 0 else rng.choice(pool), "mu": rng.choice([1e-4, 1e-3, 3e-3, 1e-2]), "TrSyms": rng.choice([None, None, rng.randint(8, 30)]), "parts": partition(rng, it)})
        nseg = sum(len(s["parts"]) for s in sc["stages"])
        sc["stores"] = [rng.choice(STORES) for _ in range(nseg)]
        sc["fresh"] = [rng.random() < .25 for _ in range(nseg)]          # session runs in a process of its own
        sc["filed"] = rng.random() < .4                                  # and reads the signal from a file
        sc["stops"] = [[[rng.choice(["killed", "interrupt", "failed allocation"]), rng.random()] for _ in range(rng.choice([0, 0, 1, 1, 2]))] for _ in range(nseg)]
        sc["between"] = [rng.choice(BETWEEN) if rng.random() < .4 else None for _ in range(nseg)]
        sc["upper"] = rng.random() < .1
        return sc

    # ---- the world
    def world(self, sc):
        from qampy import signals
        E, syms, w = make_field(sc)
        if not sc["obj"]:
            return E, syms, w
        s = signals.SignalQAMGrayCoded(sc["M"], sc["N"], nmodes=sc["nmodes"], fb=1e9, seed=sc["seed"] % 1000, dtype=np.dtype(sc["dtype"]))
        # the distorted field carries other symbols: as good for training, and data-aided methods get those of the signal
        return s.recreate_from_np_array(np.array(E[:, :s.shape[1] * 2]).copy(), fs=2e9), None, w

    def symbols(self, sc, syms, method, E):
        """what the methods decide on, core API"""
        if method in DATA:
            return syms
        from qampy.theory import cal_symbols_qam, cal_scaling_factor_qam
        return np.atleast_2d((cal_symbols_qam(sc["M"]) / np.sqrt(cal_scaling_factor_qam(sc["M"]))).astype(E.dtype))

    def name(self, sc, m):
        return m.upper() if sc["upper"] and not (sc["obj"] and m in DATA) else m

    def train(self, sc, world, stage, niter, taps, apply=False, modes="sc", method=None):
        from qampy import equalisation as oeq
        from qampy.core import equalisation as ceq
        E, syms, _ = world
        modes = sc["modes"] if modes == "sc" else modes
        m = method or stage["method"]
        kw = dict(wxy=taps, Ntaps=None if taps is not None else sc["Ntaps"], TrSyms=stage["TrSyms"], Niter=niter, method=self.name(sc, m), modes=None if modes is None else np.array(modes), apply=apply)
        if sc["obj"]:
            return oeq.equalise_signal(E, stage["mu"], **kw)
        return ceq.equalise_signal(E, sc["os"], stage["mu"], sc["M"], symbols=self.symbols(sc, syms, m, E), **kw)

    def uninterrupted(self, sc, world, apply):
        from qampy import equalisation as oeq
        from qampy.core import equalisation as ceq
        E, syms, w = world
        st = sc["stages"]
        it = [sum(s["parts"]) for s in st]
        if len(st) == 1:
            v = self.train(sc, world, st[0], it[0], w, apply)
            return v[:-1] + ((v[-1],),)
        a = (st[0]["mu"], st[1]["mu"])
        kw = dict(wxy=w, TrSyms=tuple(s["TrSyms"] for s in st), Niter=tuple(it), methods=tuple(self.name(sc, s["method"]) for s in st), modes=None if sc["modes"] is None else np.array(sc["modes"]), apply=apply)
        nt = None if w is not None else sc["Ntaps"]
        if sc["obj"]:
            return oeq.dual_mode_equalisation(E, a, nt, **kw)
        return ceq.dual_mode_equalisation(E, sc["os"], a, sc["M"], Ntaps=nt, symbols=tuple(self.symbols(sc, syms, s["method"], E) for s in st), **kw)

    def filtered(self, sc, world, taps):
        from qampy import equalisation as oeq
        from qampy.core import equalisation as ceq
        E = world[0]
        if not sc["obj"]:
            return ceq.apply_filter(E, sc["os"], taps, modes=self.rows(sc, sc["stages"][-1]["method"]))
        return oeq.apply_filter(E, taps)

    def rows(self, sc, method):
        """rows of the taps that belong to the chosen modes"""
        if sc["modes"] is None:
            return None
        m = list(sc["modes"])
        return np.array(m + [k + sc["nmodes"] for k in m] if method in REAL else m)

    # ---- one run
    def run(self, sc, res):
        np.seterr(all="ignore")
        root = harness.scratch()
        try:
            self._run(sc, res, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, res, root):
        world = self.world(sc)
        shelf = Shelf()
        w = world[2]
        if w is not None:
            shelf.add("the starting taps", w)
            res.stats["probe:starting taps"] += 1
        sig_was = state.look(world[0])
        for name, c in (("two methods", len(sc["stages"]) > 1), ("modes subset", sc["modes"] is not None), ("real-valued", sc["method"] in REAL), ("data-aided", any(s["method"] in DATA for s in sc["stages"])),
                        ("single precision", sc["dtype"] == "complex64"), ("object API", sc["obj"]), ("training on a shorter part", any(s["TrSyms"] for s in sc["stages"]))):
            if c:
                res.stats["probe:" + name] += 1
        who = "%s, %s" % ("+".join(s["method"] for s in sc["stages"]), "signal" if sc["obj"] else "array")
        try:
            full = self.uninterrupted(sc, world, False)
            out, ftaps, ferr = self.uninterrupted(sc, world, True)
        except AssertionError as e:
            if "Field must be longer" in str(e):
                res.stats["field too short"] += 1
                return
            raise
        want_taps, want_err = full[0], full[1] if len(sc["stages"]) > 1 else full[-1]
        shelf.add("the taps of the training in one go", want_taps)
        if not same(want_taps, ftaps) or not all(same(a, b) for a, b in zip(want_err, ferr)):
            res.fail("applying the taps changes the training", "%s: taps %s" % (who, how_different(want_taps, ftaps)), key="apply changes training")
            return
        if sc["obj"] and sc["filed"]:
            world[0].save_to_file(os.path.join(root, "capture.sig"))
        ck = None
        taps = w
        k = 0
        errs = [[] for _ in sc["stages"]]
        segs = [(i, n) for i, s in enumerate(sc["stages"]) for n in s["parts"]]
        for k, (i, n) in enumerate(segs):
            stage = sc["stages"][i]
            v = None
            # number of points a session passes
            for fault, f in sc["stops"][k] + [[None, 0]]:
                taps = ck.load() if ck is not None else w
                if taps is not None:
                    shelf.add("the taps after session %d (%s)" % (k, ck.how if ck else "given"), taps)
                if fault is None and not sc["fresh"][k]:
                    v = self.train(sc, world, stage, n, taps)
                    break
                if fault == "killed" or fault is None:
                    v = self.child(sc, root, world, stage, n, taps, f if fault else None, res)
                    if fault is None:
                        break
                else:
                    count = self.points(sc, world, stage, n, taps)
                    exc = FAULTS[fault]("simulated")
                    a = pysim.Abort(1 + int(f * count), exc)
                    r = a.call(lambda: self.train(sc, world, stage, n, taps))
                    res.state(stage["method"], ck.how if ck else "", a.place)
                    if r[0] == "ok" or type(r[1]) is not type(exc):
                        res.fail("the exception is lost", "%s: %s in %s of session %d: %s" % (who, fault, a.place, k, "returned" if r[0] == "ok" else repr(r[1])), key="lost")
                        return
                res.stats["fault:" + fault] += 1
                res.stats["probe:" + fault] += 1
                c = shelf.changed()
                if c:
                    res.fail("stored taps change", "%s: session %d stopped (%s): %s" % (who, k, fault, c), key="stored taps")
                    return
            new, err = v[0], v[-1]
            shelf.add("the taps session %d returned" % k, new)
            errs[i].append(np.array(err))
            res.event(k, state._h(np.asarray(new).tobytes()), state._h(np.asarray(err).tobytes()))
            ck = Checkpoint(sc["stores"][k], root, k, new)
            res.stats["probe:" + ck.how] += 1
            self.meanwhile(sc, world, stage, ck, sc["between"][k], res)
            c = shelf.changed()
            if c:
                res.fail("stored taps change", "%s: after session %d (%s): %s" % (who, k, sc["between"][k], c), key="stored taps")
                return
        res.nontrivial = len(segs) > 1
        res.sim_steps += sum(n for _, n in segs)
        taps = ck.load()
        if ck.how == "wide":
            taps = np.asarray(taps, dtype=want_taps.dtype)
        if not same(want_taps, np.ascontiguousarray(taps)):
            res.fail("resumed training ends elsewhere", "%s in sessions of %s, stored in %s: taps %s" % (who, [n for _, n in segs], sc["stores"], how_different(want_taps, np.ascontiguousarray(taps))), key="resume")
            return
        for i in range(len(sc["stages"])):
            e = np.concatenate(errs[i], axis=-1)
            if not same(want_err[i], e):
                res.fail("resumed training reports other errors", "%s in sessions of %s: errors %s" % (who, [n for _, n in segs], how_different(want_err[i], e)), key="errors")
                return
        # much later: apply the stored taps
        later = np.asarray(self.filtered(sc, world, ck.load() if ck.how != "wide" else taps))
        if sc["obj"] and sc["modes"] is not None:
            later = np.ascontiguousarray(later[np.array(sc["modes"])])
        res.stats["probe:applied later"] += 1
        if not same(np.asarray(out), later):
            res.fail("stored taps give another signal", "%s: %s" % (who, how_different(np.asarray(out), later)), key="applied later")
            return
        if sc["method"] not in REAL and np.all(np.isfinite(later)) and sc["os"] <= taps.shape[-1] and later.shape[-1]:
            # the plain implementation, with which filters are checked
            from qampy.core import equalisation as ceq
            py = np.asarray(ceq.apply_filter(np.asarray(world[0]), sc["os"], ck.load(), method="py", modes=None if sc["modes"] is None else np.array(sc["modes"])))
            res.stats["probe:applied in python"] += 1
            extra = py.shape[-1] - later.shape[-1]  # one more, if the last taps reach the end of the signal
            if extra == 1:
                py = py[..., :later.shape[-1]]
            if py.shape != later.shape or not np.allclose(py, later, rtol=1e-3 if sc["dtype"] == "complex64" else 1e-8, atol=(1e-3 if sc["dtype"] == "complex64" else 1e-8) * np.max(np.abs(later))):
                res.fail("stored taps give another signal", "%s: with the python implementation, modes %s: shape %s instead of %s" % (who, sc["modes"], py.shape, later.shape), key="applied in python")
                return
        if state.look(world[0]) != sig_was:
            res.fail("the capture changes", "%s: after training in sessions" % who, key="capture")
            return
        c = shelf.changed()
        if c:
            res.fail("stored taps change", "%s: in the end: %s" % (who, c), key="stored taps")

    def points(self, sc, world, stage, n, taps):
        a = pysim.Abort(0, None)
        r = a.call(lambda: self.train(sc, world, stage, n, taps))
        if r[0] != "ok":
            raise r[1]
        return a.count

    def meanwhile(self, sc, world, stage, ck, what, res):
        """work with the stored taps that has nothing to do with the training"""
        if what is None:
            return
        res.stats["probe:" + what] += 1
        t = ck.load()
        if ck.how == "wide" and what != "train on from it":
            t = t.astype(world[0].dtype if stage["method"] not in REAL else world[0].real.dtype)
        if what == "apply":
            self.filtered(sc, world, t)
        elif what == "train on from it":
            self.train(sc, world, stage, 2, t)
        elif what == "other modes":
            self.train(sc, world, stage, 1, t, modes=[sc["nmodes"] - 1])
        elif what == "other method":
            m = "cma_real" if stage["method"] in REAL else "mcma"
            self.train(sc, world, stage, 1, t, method=m)
        elif what == "apply and train":
            self.train(sc, world, stage, 1, t, apply=True)

    def child(self, sc, root, world, stage, n, taps, f, res):
        """one session in a process of its own, which may be killed"""
        out = os.path.join(root, "result")
        count = self.points(sc, world, stage, n, taps) if f is not None else 0
        at = 1 + int(f * count) if f is not None else 0
        note = os.path.join(root, "place")
        pid = os.fork()
        if pid == 0:
            try:
                if sc["obj"] and sc["filed"]:
                    from qampy.core import io as cio
                    world = (cio.load_signal(os.path.join(root, "capture.sig")),) + world[1:]

                class Kill(pysim.Abort):
                    def point(self, code, where):
                        self.count += 1
                        if self.count == at:
                            with open(note, "w") as fp:
                                fp.write("%s:%d" % (code.co_name, where))
                            os._exit(9)
                r = Kill(at, None).call(lambda: self.train(sc, world, stage, n, taps))
                with open(out, "wb") as fp:
                    pickle.dump((r[0], tuple(np.asarray(x) for x in r[1]) if r[0] == "ok" else "%s: %s" % (type(r[1]).__name__, r[1])), fp)
                os._exit(0)
            finally:
                os._exit(3)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        res.stats["probe:new process"] += 1
        if sc["obj"] and sc["filed"]:
            res.stats["probe:signal from file"] += 1
        if code == 9 and f is not None:
            with open(note) as fp:
                res.state(stage["method"], "killed", fp.read())
            return None
        if code != 0:
            raise harness.HarnessError("session in a process of its own ended with %d" % code)
        with open(out, "rb") as fp:
            kind, v = pickle.load(fp)
        if f is not None:
            raise harness.HarnessError("the session was not killed")
        if kind != "ok":
            raise RuntimeError("the session in a new process raised " + v)
        return v

    def shrink(self, sc):
        nseg = len(sc["stores"])
        for k in range(nseg):
            for i in range(len(sc["stops"][k])):
                yield dict(sc, stops=sc["stops"][:k] + [sc["stops"][k][:i] + sc["stops"][k][i + 1:]] + sc["stops"][k + 1:])
            if sc["between"][k] is not None:
                yield dict(sc, between=sc["between"][:k] + [None] + sc["between"][k + 1:])
            if sc["fresh"][k]:
                yield dict(sc, fresh=sc["fresh"][:k] + [False] + sc["fresh"][k + 1:])
            if sc["stores"][k] != "memory":
                yield dict(sc, stores=sc["stores"][:k] + ["memory"] + sc["stores"][k + 1:])
        if len(sc["stages"]) == 2:
            n0 = len(sc["stages"][0]["parts"])
            for keep, sl in ((0, slice(0, n0)), (1, slice(n0, nseg))):
                yield dict(sc, stages=[sc["stages"][keep]], method=sc["stages"][keep]["method"], **{k: sc[k][sl] for k in ("stores", "fresh", "stops", "between")})
        k = 0
        for i, s in enumerate(sc["stages"]):
            for j in range(len(s["parts"])):
                if len(s["parts"]) > 1:
                    yield dict(sc, stages=sc["stages"][:i] + [dict(s, parts=s["parts"][:j] + s["parts"][j + 1:])] + sc["stages"][i + 1:], **{q: sc[q][:k] + sc[q][k + 1:] for q in ("stores", "fresh", "stops", "between")})
                k += 1
            if s["TrSyms"] is not None:
                yield dict(sc, stages=sc["stages"][:i] + [dict(s, TrSyms=None)] + sc["stages"][i + 1:])
        for key, v in (("filed", False), ("obj", False), ("modes", None), ("inittaps", False), ("dtype", "complex128"), ("upper", False), ("N", 60), ("Ntaps", 3), ("M", 4), ("os", 2)):
            if sc[key] != v:
                yield dict(sc, **{key: v})
        if sc["nmodes"] > 1 and sc["modes"] is None:
            yield dict(sc, nmodes=sc["nmodes"] - 1)


CHECK = C19
