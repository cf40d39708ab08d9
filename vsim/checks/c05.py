"""C05: a damaged or failing file never loads as a different signal."""
import errno
import os
import random
import shutil
import warnings

from vsim import fs, harness, sigs, state

DAMAGE = ["none", "none", "truncate", "truncate", "torn", "zero", "flip", "flip", "flips", "lostblock", "dupblock", "swapblocks", "swapequal", "balanced", "append", "byte", "shiftblock", "torn+swapequal", "torn+balanced"]
READ = ["none", "none", "none", "short", "eintr", "eio", "shorteio", "eof"]


def damage(data, kind, rng):
    """the stored bytes after damage"""
    if kind.startswith("torn+"):      # the very end of the file is lost as well, where checksums tend to be
        data = damage(data, kind[5:], rng)
        return data[:len(data) - rng.choice([1, 4, 8, 16, 31, 32, 32, 32, 33, 36])]
    d = bytearray(data)
    n = len(d)
    B = 512
    nb = n // B

    def swap(i, j):
        d[i * B:(i + 1) * B], d[j * B:(j + 1) * B] = d[j * B:(j + 1) * B], d[i * B:(i + 1) * B]
    if kind == "truncate":
        del d[rng.choice([0, 1, 2, n - 1, n - 2, n - 4, rng.randrange(n), rng.randrange(n), max(n - rng.randrange(1, 80), 0)]):]
    elif kind == "torn":      # everything after some sector never arrived, but the size did
        k = rng.randrange(0, n // B + 1) * B
        d[k:] = bytes(n - k)
    elif kind == "zero":
        a = rng.randrange(n)
        b = min(n, a + rng.choice([1, 8, B, 4096]))
        d[a:b] = bytes(b - a)
    elif kind == "flip":
        d[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif kind == "flips":
        for _ in range(rng.randint(2, 12)):
            d[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif kind == "byte":
        d[rng.randrange(n)] = rng.randrange(256)
    elif kind == "append":
        d += bytes(rng.randrange(256) for _ in range(rng.choice([1, 16, 512])))
    elif kind == "lostblock" and nb:
        k = rng.randrange(nb)
        del d[k * B:(k + 1) * B]
    elif kind == "shiftblock" and nb > 1:
        k = rng.randrange(nb - 1)
        d[k * B:(k + 2) * B] = d[k * B + 1:(k + 2) * B] + d[k * B:k * B + 1]
    elif kind == "dupblock" and nb > 1:
        i, j = rng.sample(range(nb), 2)
        d[i * B:(i + 1) * B] = d[j * B:(j + 1) * B]
    elif kind == "swapblocks" and nb > 1:
        swap(*rng.sample(range(nb), 2))
    elif kind == "swapequal" and nb > 1:      # two different blocks with the same byte sum, where there are such
        by = {}
        for i in range(nb):
            by.setdefault(sum(d[i * B:(i + 1) * B]) % 65521, []).append(i)
        pairs = [(a, b) for l in by.values() for a in l for b in l if a < b and d[a * B:(a + 1) * B] != d[b * B:(b + 1) * B]]
        if pairs:
            swap(*rng.choice(pairs))
    elif kind == "balanced" and n > 8:        # an alteration that keeps both sums of a Fletcher or Adler checksum
        for _ in range(200):
            i = rng.randrange(n - 3)
            if d[i] < 255 and d[i + 1] > 1 and d[i + 2] < 255:
                d[i] += 1
                d[i + 1] -= 2
                d[i + 2] += 1
                break
    return bytes(d)


class C05(harness.Check):
    id = "C05"
    technique = "deterministic simulation of the disk (seeded damage of stored bytes and read faults)"
    preload = True
    runs = {"quick": 9000, "thorough": 120000}
    rule = ("a run saves one signal, damages the stored bytes in a way a disk can (or not at all) and loads the file behind a disk that may deliver short, interrupted or failing reads; "
            "non-trivial if the bytes changed or a read fault fired")
    state_measure = "distinct stored file contents loaded"
    real = ["qampy.core.io.save_signal / load_signal, SignalBase.__setstate__, pickle, zlib, CPython file objects"]
    stubs = ["disk damage and read faults (libc seam fssim)"]
    assumptions = ["one kind of damage per file, or one and the loss of its last bytes", "a stored file is read once per load"]
    required_probes = ["rejected", "healthy file loaded", "short reads loaded", "uncompressed", "equal-sum blocks swapped"]

    def gen(self, rng, tier, index):
        dm = rng.choice(DAMAGE)
        lvl = rng.choice([0, 0, 1, 4, 9, None])
        if dm.endswith(("swapequal", "balanced")) and rng.random() < .8:
            lvl = 0
        return {"sig": sigs.spec(rng, kinds=sigs.KINDS if not dm.endswith("swapequal") else ("qam", "psk", "pilots", "frombits"), maxn=rng.choice([20, 200, 1500]) if not dm.endswith("swapequal") else 1500), "lvl": lvl, "damage": dm,
                "read": rng.choice(READ), "api": rng.choice(["core", "io"]), "at": rng.randrange(8), "arg": rng.choice([1, 7, 512, 4096]), "seed": rng.getrandbits(24)}

    def run(self, sc, res):
        warnings.simplefilter("ignore")
        root = harness.scratch()
        try:
            self._run(sc, res, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, res, root):
        from qampy.core import io as cio
        from qampy import io as qio
        rng = random.Random(sc["seed"])
        p = os.path.join(root, "x.sig")
        sig = sigs.make(sc["sig"])
        want = sigs.make(sc["sig"])
        d0 = state.diff(sig, want)
        if d0:
            raise harness.HarnessError("workload is not reproducible: " + d0)
        cio.save_signal(p, sig, **({} if sc["lvl"] is None else {"lvl": sc["lvl"]}))
        with open(p, "rb") as fp:
            data = fp.read()
        bad = damage(data, sc["damage"], rng)
        changed = bad != data
        with open(p, "wb") as fp:
            fp.write(bad)
        plan = {"none": [], "short": [(0, fs.SHORT, max(sc["arg"], len(bad) // 400 + 1), 1, 1 << fs.READ)], "eintr": [(sc["at"] % 4, fs.EINTR, 0, 0, 0)],
                "eio": [(sc["at"] % 4, fs.ERR, errno.EIO, 0, 0)], "eof": [(1, fs.SHORT, max(1, len(bad) // 2), 0, 0)],
                "shorteio": [(1, fs.SHORT, max(1, len(bad) // 3), 0, 0), (2 + sc["at"] % 2, fs.ERR, errno.EIO, 1, 1 << fs.READ)]}[sc["read"]]
        load = cio.load_signal if sc["api"] == "core" else qio.load_signal
        out = fs.run(root, lambda: load(p), plan)
        res.sim_steps += len(out.log)
        res.event(sc["damage"], changed, out.kind, type(out.value).__name__, fs.normal(out.log, root, {"x.sig"}))
        res.state(bad)
        for k, v in out.fired.items():
            res.stats["fault:" + k] += v
        if changed:
            res.stats["fault:" + sc["damage"]] += 1
        res.nontrivial = changed or bool(out.fired)
        failing = any(o.fault == fs.ERR for o in out.log)
        what = "%s signal, compression %s, %s, read faults %s" % (sc["sig"]["kind"], sc["lvl"], ("stored bytes changed (%s, %d -> %d bytes)" % (sc["damage"], len(data), len(bad))) if changed else "undamaged", sc["read"])
        if sc["lvl"] == 0:
            res.stats["probe:uncompressed"] += 1
        if changed and sc["damage"].endswith("swapequal"):
            res.stats["probe:equal-sum blocks swapped"] += 1
        if out.kind != "ok":
            if not changed and not failing:
                res.fail("healthy file not loaded", "%s: loading ends with %s %r" % (what, out.kind, out.value))
            res.stats["probe:rejected"] += 1
            return
        d = state.diff(want, out.value, ("saved", "loaded"))
        if d:
            res.fail("loaded as a different signal", "%s: loading returned a different object without an error: %s" % (what, d))
            return
        if not changed:
            res.stats["probe:healthy file loaded"] += 1
            if out.fired.get("short transfer"):
                res.stats["probe:short reads loaded"] += 1

    def shrink(self, sc):
        for s in sigs.smaller(sc["sig"]):
            yield dict(sc, sig=s)
        for k, v in (("read", "none"), ("lvl", 0), ("api", "core"), ("at", 0), ("arg", 1)):
            if sc[k] != v:
                yield dict(sc, **{k: v})


CHECK = C05
