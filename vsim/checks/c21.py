"""C21: a signal file is an atomic register for concurrent callers."""
import os
import pathlib
import random
import shutil
import warnings

from vsim import harness, procsim, pysim, session, sigs

# names a saver could be tempted to use for itself are other users' files here
NAMES = ["a.sig", "a.sig", "a.sig", "a.sig", "b.sig", "a", "a.sig.tmp", ".a.sig.tmp", "a.tmp", "a.sig~", "a.sig.bak", "tmp", "sub/a.sig", "link.sig"]
EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "io": OSError}


def io_only(code):
    return os.path.basename(code.co_filename) == "io.py" or code.co_name == "save_to_file"


def register(path):
    return "a.sig" if path == "link.sig" else path


class Tape:
    """what happened, with times of one clock"""

    def __init__(self):
        self.ops = {}

    def begin(self, key, t):
        self.ops[key] = {"t0": t, "t1": None, "out": None}

    def end(self, key, t, out):
        self.ops[key].update(t1=t, out=out)


def explain(ops, initial):
    """is there an order of the operations on one register that explains all results? ops: (t0, t1, kind, value, out, optional)"""
    seen = set()

    def go(left, val):
        if not left:
            return True
        k = (left, val)
        if k in seen:
            return False
        seen.add(k)
        first = min(ops[i][1] for i in left)
        for i in left:
            t0, t1, kind, v, out, opt = ops[i]
            if t0 > first:
                continue
            rest = left - {i}
            if opt and go(rest, val):           # it failed or was killed before it took effect
                return True
            if kind == "save":
                if go(rest, v):
                    return True
            elif kind == "load":
                if (out == val if not opt else True) and go(rest, val):
                    return True
            elif kind == "remove":
                if opt or out == "ok":
                    if val is not None and go(rest, None):
                        return True
                elif val is None and go(rest, None):
                    return True
        return False
    return go(frozenset(range(len(ops))), initial)


class C21(harness.Check):
    id = "C21"
    technique = "deterministic simulation of concurrent threads and processes (seeded preemption at bytecodes, failures and kills) with linearizability checking"
    runs = {"quick": 3000, "thorough": 60000}
    rule = ("a run is 2-4 threads or processes that save, load and remove signals under a few names of one directory, interleaved by a seeded scheduler at bytecodes of the library; saves and loads may be hit by an exception at "
            "a chosen bytecode, and processes killed; the recorded history has to be linearizable with every name a register, and the directory holds nothing else at the end; non-trivial if a caller was preempted while inside an operation")
    state_measure = "distinct (place a caller was stopped at, place the next one resumed at) pairs"
    real = ["qampy.core.io, qampy.io, SignalBase.save_to_file, pickle, zlib, real threads and processes, the file system (tmpfs)"]
    stubs = ["thread and process scheduling (one caller runs at a time, switches at bytecodes of qampy only)", "process kills (SIGKILL at a stop)"]
    assumptions = ["single system calls are atomic", "code outside qampy (pickle, zlib, os, shutil) is not preempted in the middle"]
    required_probes = ["threads", "processes", "concurrent saves of one file", "load during a save", "fault in a save", "process killed", "file removed", "symbolic link", "saved object shared", "load of a missing file", "similar names"]

    def gen(self, rng, tier, index):
        n = rng.choice([2, 2, 3, 4])
        names = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .3:
            names.append("link.sig")
        if rng.random() < .2:
            names = ["a.sig"] + [x for x in NAMES[4:12]]
        nsig = rng.choice([2, 3, 4])
        spec = [sigs.spec(rng, maxn=rng.choice([8, 40, 40, 400])) for _ in range(nsig)]
        callers = []
        remove = rng.random() < .4
        for i in range(n):
            role = rng.choice(["saver", "loader", "both", "both"]) if i else "saver"
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                k = {"saver": "save", "loader": "load", "both": rng.choice(["save", "load"])}[role]
                if remove and rng.random() < .2:
                    k = "remove"
                o = {"op": k, "path": rng.choice(names), "api": rng.choice(["core", "io", "method"]), "type": rng.choice(["str", "path"])}
                if k == "save":
                    o.update(sig=rng.randrange(nsig), lvl=rng.choice([None, 0, 1, 9]))
                if k != "remove" and rng.random() < .12:
                    o["fault"] = [rng.choice([1, 2, 5, 10, 20, 50, 100]) + rng.randrange(30), rng.choice(sorted(EXC))]
                ops.append(o)
            callers.append(ops)
        kind = rng.choice(["threads", "processes"])
        if rng.random() < .12:      # a file that comes and goes while others use it
            names = [names[0]]
            op = lambda k: dict({"op": k, "path": names[0], "api": rng.choice(["core", "io", "method"]), "type": rng.choice(["str", "path"])}, **({"sig": rng.randrange(nsig), "lvl": rng.choice([None, 0, 1, 9])} if k == "save" else {}))
            callers = [[op("save") for _ in range(rng.choice([2, 3]))], [op("remove") for _ in range(rng.choice([3, 5, 8]))], [op("load") for _ in range(rng.choice([3, 5]))], [op("save") for _ in range(rng.choice([1, 2]))]][:rng.choice([3, 4, 4])]
            n = len(callers)
            storm = {"calls": True, "only": True, "p": rng.choice([.2, .4, .6])}
        else:
            storm = {}
        return dict({"kind": kind, "specs": spec, "callers": callers, "initial": {x: rng.randrange(nsig) for x in sorted(set(map(register, names))) if rng.random() < .5}, "seed": rng.getrandbits(30), "p": rng.choice([.005, .02, .1, .3]),
                "only": rng.random() < .6, "calls": rng.random() < .4, "kills": [[rng.randrange(n), rng.choice([10, 50, 100, 200]) + rng.randrange(100)]] if kind == "processes" and rng.random() < .35 else [], "trace": None}, **storm)

    def run(self, sc, res):
        warnings.simplefilter("ignore")
        root = harness.scratch()
        try:
            self._run(sc, res, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def perform(self, o, objs, root):
        """one operation; what the caller saw"""
        from qampy import io as qio
        from qampy.core import io as cio
        p = os.path.join(root, o["path"])
        if o["type"] == "path":
            p = pathlib.Path(p)
        try:
            if o["op"] == "remove":
                os.remove(os.path.join(root, register(o["path"])))
                return "ok"
            if o["op"] == "load":
                s = (cio if o["api"] == "core" else qio).load_signal(p)
                return ["value", s]
            kw = {} if o["lvl"] is None else {"lvl": o["lvl"]}
            s = objs[o["sig"]]
            if o["api"] == "method":
                s.save_to_file(p, **kw)
            else:
                (cio if o["api"] == "core" else qio).save_signal(p, s, **kw)
            return "ok"
        except FileNotFoundError:
            if o["op"] == "save":
                return "FileNotFoundError"
            return "missing"
        except BaseException as e:
            return "%s: %s" % (type(e).__name__, str(e)[:200])

    def _run(self, sc, res, root):
        from qampy.core import io as cio
        os.mkdir(os.path.join(root, "sub"))
        os.symlink("a.sig", os.path.join(root, "link.sig"))
        objs = [sigs.make(s) for s in sc["specs"]]
        digest = [session.value(s) for s in objs]
        for path, k in sc["initial"].items():
            cio.save_signal(os.path.join(root, path), objs[k])
        tape = Tape()
        only = io_only if sc["only"] else None
        rng = random.Random(sc["seed"])
        faults = []

        def show(out):
            return ["value", session.value(out[1])] if isinstance(out, list) else out
        if sc["kind"] == "threads":
            check = self

            class S(pysim.Sim):
                fault = {}

                def point(self, code, where):
                    if only and not only(code):
                        return
                    super().point(code, where)
                    f = self.fault.get(self.me)
                    if f:
                        f[0] -= 1
                        if f[0] <= 0 and procsim.can_raise(code, where):
                            self.fault[self.me] = None
                            faults.append("%s:%d" % (code.co_name, where))
                            raise f[1]
            sim = S(rng, sc["p"], sc["trace"], True, calls=sc["calls"])
            sim.fault = {}

            def caller(i, ops):
                def go():
                    for k, o in enumerate(ops):
                        sim.between()
                        tape.begin((i, k), sim.step)
                        if "fault" in o:
                            sim.fault[i] = [o["fault"][0], EXC[o["fault"][1]]("injected")]
                        out = check.perform(o, objs, root)
                        sim.fault[i] = None
                        sim.step += 1
                        tape.end((i, k), sim.step, out)
                return go
            outs = sim.run([caller(i, ops) for i, ops in enumerate(sc["callers"])])
            for v in outs:
                if v[0] == "raised":
                    raise v[1]
            for v in tape.ops.values():
                v["out"] = show(v["out"])
            steps = sim.step
            killed = {}
        else:
            def message(i, m):
                if m[0] == "begin":
                    tape.begin((i, m[1]), m[2])
                elif m[0] == "end":
                    tape.end((i, m[1]), m[2], m[3])
                elif m[0] == "fault":
                    faults.append(m[1])
            sim = procsim.Sim(rng, 1 / sc["p"], sc["trace"], sc["kills"], only, message)

            def caller(i, ops):
                def go(child):
                    for k, o in enumerate(ops):
                        child.send("begin", k, child.tick())
                        if "fault" in o:
                            child.fault = [o["fault"][0], EXC[o["fault"][1]]("injected")]
                        out = self.perform(o, objs, root)
                        child.fault = None
                        t = child.tick()
                        child.left = max(1, child.left - 20)
                        with_value = show(out)
                        child.send("end", k, t, with_value)
                return go
            steps = sim.run([caller(i, ops) for i, ops in enumerate(sc["callers"])])
            killed = sim.killed
        res.sim_steps += steps
        res.concrete = dict(sc, trace=sim.trace)
        res.event(sc["kind"], sim.trace)
        for a, b in sim.pairs:
            res.state(a, b)
        if sim.pairs:
            res.nontrivial = True
        res.stats["fault:preemption in the library"] += len(sim.pairs)
        res.stats["fault:exception in an operation"] += len(faults)
        res.stats["fault:process killed"] += len(killed)
        self.judge(sc, res, root, tape, digest, faults, killed, steps)

    def judge(self, sc, res, root, tape, digest, faults, killed, steps):
        from qampy.core import io as cio
        regs = {}
        for key in sorted(tape.ops):
            i, k = key
            v = tape.ops[key]
            o = sc["callers"][i][k]
            out = v["out"]
            gone = v["t1"] is None
            t1 = killed[i][0] if gone else v["t1"]
            injected = isinstance(out, str) and "injected" in out
            res.event(i, k, v["t0"], t1, out)
            what = "%s %d of %s %d (%s of %s)" % (o["op"], k, sc["kind"][:-2] if sc["kind"] == "processes" else "thread", i, o["api"], o["path"])
            if not gone and not injected:
                if o["op"] == "save" and out != "ok":
                    res.fail("a concurrent save failed", "%s: %s" % (what, out), key="save:" + out.split(":")[0])
                    return
                if o["op"] == "load":
                    if out != "missing" and not isinstance(out, list):
                        res.fail("torn file", "%s: %s" % (what, out), key="load:" + out.split(":")[0])
                        return
                    if isinstance(out, list) and out[1] not in digest:
                        res.fail("loaded a signal nobody saved", what, key="load:other")
                        return
            self.probes(res, sc, o, out, injected, gone)
            val = digest[o["sig"]] if o["op"] == "save" else None
            if o["op"] == "load" and isinstance(out, list):
                out = out[1]
            elif o["op"] == "load" and out == "missing":
                out = None
            regs.setdefault(register(o["path"]), []).append((v["t0"], t1, o["op"], val, out, gone or injected))
        # the contents at the end are one more load of every name
        for path in sorted(set(regs) | set(sc["initial"])):
            try:
                last = session.value(cio.load_signal(os.path.join(root, path)))
            except FileNotFoundError:
                last = None
            except Exception as e:
                res.fail("torn file", "at the end %s holds no signal: %s: %s" % (path, type(e).__name__, e), key="end:torn")
                return
            ops = regs.get(path, [])
            ini = sc["initial"].get(path)
            ops.append((steps + 10, steps + 11, "load", None, last, False))
            self.overlaps(res, ops)
            if len(ops) <= 14 and not explain(ops, None if ini is None else digest[ini]):
                name = {d: "signal %d" % k for k, d in enumerate(digest)}
                name[None] = "nothing"
                res.fail("not linearizable", "%s (initially %s): %s" % (path, name[None if ini is None else digest[ini]], "; ".join("%s[%d,%d]%s%s" % (k, a, b, "=" + name.get(v if k == "save" else o, str(o)), "?" if opt else "") for a, b, k, v, o, opt in sorted(ops, key=lambda x: x[:2]))), key="order")
                return
        # nothing else is left behind
        known = set(regs) | set(sc["initial"]) | {"link.sig"}
        extra = []
        for d, _, fs in os.walk(root):
            extra += [os.path.relpath(os.path.join(d, f), root) for f in fs]
        extra = [x for x in extra if x not in known]
        if len(extra) > len(killed):
            res.fail("stray files", "%d files besides those saved: %s" % (len(extra), ", ".join(sorted(e[-8:] for e in extra))), key="stray")
            return
        if not os.path.islink(os.path.join(root, "link.sig")):
            res.fail("a link was replaced by a file", "link.sig", key="link")

    def probes(self, res, sc, o, out, injected, gone):
        st = res.stats
        st["probe:" + sc["kind"]] += 1
        st["ops " + o["op"]] += 1
        st["probe:fault in a save"] += injected and o["op"] == "save"
        st["probe:process killed"] += gone
        st["probe:file removed"] += o["op"] == "remove" and out == "ok"
        st["probe:symbolic link"] += o["path"] == "link.sig"
        st["probe:load of a missing file"] += o["op"] == "load" and out == "missing"
        st["probe:similar names"] += o["path"] not in ("a.sig", "b.sig")
        st["probe:saved object shared"] += len({i for i, ops in enumerate(sc["callers"]) for x in ops if x.get("sig") == o.get("sig") and x["op"] == "save"}) > 1

    def overlaps(self, res, ops):
        s = [x for x in ops if x[2] == "save"]
        for a in range(len(s)):
            for b in range(a):
                res.stats["probe:concurrent saves of one file"] += s[a][0] < s[b][1] and s[b][0] < s[a][1]
            for l in ops:
                res.stats["probe:load during a save"] += l[2] == "load" and l[0] < s[a][1] and s[a][0] < l[1]

    def shrink(self, sc):
        cs = sc["callers"]
        if len(cs) > 2 and not sc["kills"]:
            for i in range(len(cs)):
                yield dict(sc, callers=cs[:i] + cs[i + 1:], trace=None)
        if sc["kills"]:
            yield dict(sc, kills=[], trace=None)
        for i, ops in enumerate(cs):
            for k in range(len(ops)):
                yield dict(sc, callers=cs[:i] + [ops[:k] + ops[k + 1:]] + cs[i + 1:], trace=None)
                if "fault" in ops[k]:
                    o = {x: y for x, y in ops[k].items() if x != "fault"}
                    yield dict(sc, callers=cs[:i] + [ops[:k] + [o] + ops[k + 1:]] + cs[i + 1:], trace=None)
        if sc["initial"]:
            for k in sc["initial"]:
                yield dict(sc, initial={x: y for x, y in sc["initial"].items() if x != k})
        tr = sc["trace"]
        if tr:
            n = len(tr)
            for k in (n // 2, n // 4, 1):
                if k:
                    for a in range(0, n, k):
                        yield dict(sc, trace=tr[:a] + tr[a + k:])
        for i, s in enumerate(sc["specs"]):
            for x in sigs.smaller(s):
                yield dict(sc, specs=sc["specs"][:i] + [x] + sc["specs"][i + 1:], trace=None)


CHECK = C21
