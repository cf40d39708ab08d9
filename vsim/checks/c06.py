"""C06: saving is all-or-nothing across failures and crashes."""
import errno
import os
import pathlib
import random
import shutil
import warnings

from vsim import fs, harness, sigs, state

ERRNOS = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE", "ENOMEM", "EFBIG"]
MODES = ["none", "none", "error", "error", "full", "short", "shortfull", "eintr", "sigint", "unserialisable", "crash", "crash", "power", "power", "power"]


class Unserialisable:
    def __reduce__(self):
        raise TypeError("this object cannot be stored")


class C06(harness.Check):
    id = "C06"
    technique = "deterministic simulation of the disk (seeded I/O faults and crash states of the recorded operation log)"
    preload = True
    runs = {"quick": 5000, "thorough": 60000}
    rule = ("a run is a history of 1-5 saves to one or two paths, each undisturbed, hit by a fault at a chosen file-system operation, or followed by a crash at a chosen operation and a "
            "continuation from the surviving disk state; non-trivial if a fault fired or a crash state was judged")
    state_measure = "distinct disk states judged (names and contents)"
    real = ["qampy.core.io.save_signal / load_signal, qampy.io, SignalBase.save_to_file, pickle, zlib, CPython file objects, tmpfs for the fault-free system calls"]
    stubs = ["disk faults and crash survival: libc seam fssim (errors, short writes, EINTR, SIGINT at an operation; fsync as a marker), crash states built from the logged operations"]
    assumptions = ["metadata operations (create, rename, unlink) reach the disk in order; unsynced data reach it in any combination of 512-byte sectors",
                   "every save starts from a settled disk", "file access through mmap would not be seen by the seam (the log is compared with the real directory, so it would be noticed)"]
    required_probes = ["fault fired", "crash state differs from both", "power loss state", "old content present", "save failed", "stale files from an earlier crash", "symlink", "short write completed"]

    def gen(self, rng, tier, index):
        steps = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
            steps.append({"path": rng.choice(["a.sig", "a.sig", "a.sig", "b.sig"]), "sig": sigs.spec(rng, maxn=rng.choice([20, 200, 1500] + [20000] * (rng.random() < .1))), "lvl": rng.choice([None, 0, 1, 5, 9]),
                          "api": rng.choice(["core", "io", "method"]), "name": rng.choice(["abs", "rel", "pathlib"]), "mode": rng.choice(MODES), "at": rng.randrange(48),
                          "errno": rng.choice(ERRNOS), "arg": rng.choice([1, 3, 100, 512, 4096]), "seed": rng.getrandbits(24)})
        return {"link": rng.random() < .15, "pre": rng.random() < .7, "steps": steps, "presig": sigs.spec(rng, maxn=300), "prelvl": rng.choice([0, 5])}

    # -- helpers
    def save(self, st, sig, root):
        from qampy.core import io as cio
        from qampy import io as qio
        p = os.path.join(root, st["path"])
        if st["name"] == "rel":
            p = st["path"]
        elif st["name"] == "pathlib":
            p = pathlib.Path(p)
        kw = {} if st["lvl"] is None else {"lvl": st["lvl"]}
        if st["api"] == "core":
            return lambda: cio.save_signal(p, sig, **kw)
        if st["api"] == "io":
            return lambda: qio.save_signal(p, sig, **kw)
        return lambda: sig.save_to_file(p, **kw)

    def plan(self, st, n):
        at = st["at"] % max(n, 1)
        e = getattr(errno, st["errno"])
        wr = 1 << fs.WRITE | 1 << fs.FSYNC | 1 << fs.OPEN | 1 << fs.TRUNC
        return {"none": [], "error": [(at, fs.ERR, e, 0, 0)], "full": [(at, fs.ERR, errno.ENOSPC, 1, wr)], "short": [(0, fs.SHORT, max(st["arg"], 97), 1, 1 << fs.WRITE)],
                "shortfull": [(at, fs.SHORT, st["arg"], 0, 0), (at + 1, fs.ERR, errno.ENOSPC, 1, wr)], "eintr": [(at, fs.EINTR, 0, 0, 0)],
                "sigint": [(at, fs.SIGINT, 0, 0, 0)], "unserialisable": [], "crash": [], "power": []}[st["mode"]]

    def content(self, root, path):
        try:
            with open(os.path.join(root, path), "rb") as fp:
                return fp.read()
        except OSError:
            return None

    def complete(self, root, path, sig):
        """None if the file holds sig, else what is wrong"""
        from qampy.core import io as cio
        try:
            got = cio.load_signal(os.path.join(root, path))
        except Exception as e:
            return "loading it raises %s: %s" % (type(e).__name__, e)
        return state.diff(sig, got, ("saved", "loaded"))

    def judge(self, res, root, st, sig, old, what, must_be_new=False, must_be_old=False):
        now = self.content(root, st["path"])
        res.state(st["path"], st["mode"], now, tuple(sorted(fs.snapshot(root))) if len(os.listdir(root)) < 9 else len(os.listdir(root)))
        if now == old and not must_be_new:
            return "old"
        wrong = "the file does not exist" if now is None else self.complete(root, st["path"], sig)
        if not wrong and not must_be_old:
            return "new"
        if must_be_new:
            res.fail("save returned without storing", "%s: the save returned normally but %s (%s bytes)" % (what, wrong, None if now is None else len(now)))
        else:
            res.fail("torn file", "%s: the path holds neither its previous content (%s bytes) nor the complete new signal: %s (%s bytes)"
                     % (what, None if old is None else len(old), wrong or "content changed by a save that cannot have succeeded", None if now is None else len(now)))
        return None

    def run(self, sc, res):
        warnings.simplefilter("ignore")
        root = harness.scratch()
        try:
            os.chdir(root)
            self._run(sc, res, root)
        finally:
            os.chdir("/")
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, res, root):
        from qampy.core import io as cio
        if sc["link"]:
            os.symlink("target.sig", os.path.join(root, "a.sig"))
            res.stats["probe:symlink"] += 1
        if sc["pre"]:
            cio.save_signal(os.path.join(root, "a.sig"), sigs.make(sc["presig"]), sc["prelvl"])
        for i, st in enumerate(sc["steps"]):
            sig = sigs.make(st["sig"])
            if st["mode"] == "unserialisable":
                sig._fb = Unserialisable()
            snap = fs.snapshot(root)
            old = self.content(root, st["path"])
            if old is not None:
                res.stats["probe:old content present"] += 1
            if any(k not in ("a.sig", "b.sig", "target.sig") for k in snap):
                res.stats["probe:stale files from an earlier crash"] += 1
            fn = self.save(st, sig, root)
            what = "step %d (%s, %s save of a %s signal)" % (i, st["mode"], st["api"], st["sig"]["kind"])
            # how many operations an undisturbed save takes
            n = 0
            if st["mode"] in ("error", "full", "shortfull", "eintr", "sigint"):
                n = len(fs.run(root, fn).log)
                fs.restore(root, snap)
            out = fs.run(root, fn, self.plan(st, n))
            res.sim_steps += len(out.log)
            res.event(i, st["mode"], out.kind, fs.normal(out.log, root, set(snap) | {"a.sig", "b.sig", "target.sig"}))
            for k, v in out.fired.items():
                res.stats["fault:" + k] += v
                res.stats["probe:fault fired"] += 1
                res.nontrivial = True
            if res.violation:
                return
            faulty = bool(out.fired) or st["mode"] == "unserialisable"
            if out.kind != "ok" and not faulty:
                res.fail("save raised without a fault", "%s: %s %r" % (what, out.kind, out.value))
                return
            if out.kind != "ok" and set(out.fired) <= {"short transfer"} and st["mode"] == "short":
                res.fail("save raised without a fault", "%s: a save whose writes are accepted in small pieces fails: %r" % (what, out.value))
                return
            if st["mode"] == "unserialisable":
                res.stats["fault:unserialisable signal"] += 1
                res.nontrivial = True
                if out.kind == "ok":
                    res.fail("save returned without storing", what + ": a signal that cannot be serialised was saved without an error")
                    return
            got = self.judge(res, root, st, sig, old, what, must_be_new=out.kind == "ok", must_be_old=st["mode"] == "unserialisable")
            if got is None:
                return
            if out.kind == "ok" and st["mode"] == "short" and out.fired:
                res.stats["probe:short write completed"] += 1
            if out.kind != "ok":
                res.stats["probe:save failed"] += 1
            # stray files (unless the very operation that removes them was made to fail)
            left = set(fs.snapshot(root)) - set(snap) - {st["path"], "target.sig"}
            blocked = any(o.fault == fs.ERR and o.op in (fs.UNLINK, fs.RENAME) for o in out.log if o.op == fs.UNLINK)
            if left and not blocked:
                res.fail("stray file", "%s: the save ended (%s) and left %d file(s) behind besides the target: %s" % (what, out.kind, len(left), sorted(os.path.splitext(x)[1] for x in left)))
                return
            if st["mode"] in ("crash", "power"):
                if not self.crash(res, root, snap, out, st, sig, old, what):
                    return
            res.event("files", len(os.listdir(root)), got)

    def crash(self, res, root, snap, out, st, sig, old, what):
        """every run judges several crash states of this save and continues from the last one"""
        final = fs.snapshot(root)
        m = fs.DiskModel(root, snap)
        for o in out.log:
            m.apply(o)
        if m.visible() != final:
            res.stats["probe:log not replayable"] += 1
            return True
        rng = random.Random(st["seed"])
        n = len(out.log)
        for j in range(4):
            k = (st["at"] + j * 7) % (n + 1)     # up to right after the last operation
            m = fs.DiskModel(root, snap)
            for o in out.log[:k]:
                m.apply(o)
            part = None
            if k < n and out.log[k].op == fs.WRITE and rng.random() < .8:
                part = rng.randint(0, max(out.log[k].res, 0))
                m.apply(out.log[k], part)
            s = m.visible() if st["mode"] == "crash" else m.after_power_loss(rng)
            fs.restore(root, s)
            res.stats["fault:process crash" if st["mode"] == "crash" else "fault:power loss"] += 1
            res.nontrivial = True
            if st["mode"] == "power":
                res.stats["probe:power loss state"] += 1
            if s != snap and s != final:
                res.stats["probe:crash state differs from both"] += 1
            got = self.judge(res, root, st, sig, old, what + ", %s before operation %d of %d%s" % ("process killed" if st["mode"] == "crash" else "power lost", k, n, "" if part is None else " after %d bytes of a write" % part))
            res.event("crash", k, part, got)
            if got is None:
                return False
        return True

    def shrink(self, sc):
        st = sc["steps"]
        for i in range(len(st)):
            if len(st) > 1:
                yield dict(sc, steps=st[:i] + st[i + 1:])
        for k in ("link", "pre"):
            if sc[k]:
                yield dict(sc, **{k: False})
        for i, x in enumerate(st):
            for y in ([dict(x, mode="none")] if x["mode"] != "none" else []) + [dict(x, sig=s) for s in sigs.smaller(x["sig"])] \
                    + [dict(x, at=x["at"] - 1)] * (x["at"] > 0) + [dict(x, api="core")] * (x["api"] != "core") + [dict(x, name="abs")] * (x["name"] != "abs") + [dict(x, lvl=None)] * (x["lvl"] is not None):
                yield dict(sc, steps=st[:i] + [y] + st[i + 1:])


CHECK = C06
