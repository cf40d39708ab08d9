"""C13: processing workers behind a simulated message network."""
import contextlib
import io
import json
import random
import zlib

import numpy as np

from vsim import harness, kernels, pysim, session, state, zmqsim

DTYPES = ["c16", "c8", "f8", "f4", "i8", "i4", "u1", "?", ">f8", ">c16", "f2"]
SHAPES = [[0], [], [1], [7], [2, 5], [3, 0, 2], [2, 3, 4], [1, 1], [40], [5, 2]]
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "broadcast", "read-only"]


def array(p):
    r = np.random.RandomState(p["seed"])
    dt = np.dtype(p["dtype"])
    sh = tuple(p["shape"])
    a = r.randn(*sh) * 100 if sh else np.array(r.randn() * 100)
    if dt.kind == "c":
        a = a + 1j * r.randn(*sh)
    if dt.kind in "fc" and np.size(a) and r.rand() < .2:
        a = np.array(a)
        a.flat[0] = (np.nan, np.inf, -0.0)[r.randint(3)]
    with np.errstate(all="ignore"):
        a = np.array(a).astype(dt)
    lay = p["layout"]
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "strided" and a.ndim:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif lay == "reversed" and a.ndim:
        a = a[..., ::-1]
    elif lay == "transposed":
        a = a.T
    elif lay == "broadcast":
        a = np.broadcast_to(a, (2,) + a.shape)
    elif lay == "read-only":
        a.flags.writeable = False
    return a


def gen_value(rng, depth=0):
    x = rng.random()
    if x < .45 or depth > 2:
        return ["array", {"dtype": rng.choice(DTYPES), "shape": rng.choice(SHAPES), "layout": rng.choice(LAYOUTS), "seed": rng.randint(0, 9999)}]
    if x < .55:
        return ["scalar", rng.choice([0, 1, -1, 2 ** 40, 1.5, True, None, "text", "töxt", "", -2 ** 63, 1e300])]
    if x < .6:
        return ["complex", [rng.choice([1.5, -2.25, 0.0]), rng.choice([0.5, -1.0])]]
    if x < .65:
        return ["npscalar", [rng.choice(["f8", "c16", "i4", "?", "f4", "c8"]), rng.randint(0, 100)]]
    if x < .7:
        return ["bytes", rng.randint(0, 40)]
    if x < .75:
        return ["signal", rng.randint(0, 999)]
    if x < .88:
        return ["list", [gen_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]]
    return ["dict", [[rng.choice(["a", "b", "data", "x y", "ü"]) + str(k), gen_value(rng, depth + 1)] for k in range(rng.randint(0, 3))]]


def value(v):
    k, p = v
    if k == "array":
        return array(p)
    if k == "scalar":
        return p
    if k == "complex":
        return complex(*p)
    if k == "npscalar":
        return np.dtype(p[0]).type(p[1])
    if k == "bytes":
        return bytes(range(p))
    if k == "signal":
        from qampy import signals
        return signals.SignalQAMGrayCoded(16, 12, nmodes=2, seed=p)
    if k == "list":
        return [value(x) for x in p]
    return {a: value(x) for a, x in p}


def same(a, b):
    """equal after a journey (tuples travel as lists)"""
    if isinstance(a, np.ndarray):
        a = np.asarray(a)
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (np.float64, np.complex128)) and not isinstance(b, np.generic):
        # they are Python numbers, and travel as such
        return isinstance(b, (float, complex)) and (a == b or a != a)
    if isinstance(a, np.generic):
        return isinstance(b, np.generic) and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a == b or a != a)


class Nasty(Exception):
    def __repr__(self):
        raise RuntimeError("no representation")
    __str__ = __repr__


class Odd:
    pass


def op_echo(m):
    return m


def op_scale(m):
    return {"id": m["id"], "data": m["data"] * m["f"]}


def op_phase(m):
    from qampy.core import phaserecovery
    E, ph = phaserecovery.bps(m["data"], m["Mtestangles"], m["symbols"], m["N"])
    return {"Eout": E, "ph": ph, "id": m["id"]}


def op_fail(m):
    how = m["how"]
    if how == "unicode":
        raise ValueError("Phasenrückgewinnung fehlgeschlagen \u03c6")
    if how == "nasty":
        raise Nasty()
    if how == "key":
        return m["no such key"]
    if how == "index":
        return [][3]
    if how == "memory":
        raise MemoryError()
    if how == "recursion":
        return op_fail(m)
    if how == "assert":
        assert False, "assertion \u2260"
    if how == "stop":
        raise StopIteration
    if how == "oserror":
        raise OSError(28, "No space left on device \u2014 dämlich")
    if how == "bytes":
        raise ValueError(b"\xff\xfe")
    if how == "zmq":
        raise zmqsim.REAL.ZMQError(zmqsim.REAL.EAGAIN)
    raise RuntimeError("simple failure")


HOWS = ["simple", "unicode", "nasty", "key", "index", "memory", "recursion", "assert", "stop", "oserror", "bytes", "zmq"]


def op_unpackable(m):
    return {"a": Odd(), "function": len, "set": {1, 2}, "nested": [{"x": object()}]}[m["kind"]]


def op_write(m):
    m["data"] += 1
    return m


def op_none(m):
    return None


def op_slow(m):
    for _ in range(m["n"]):
        zmqsim.world.yield_()
    return m


OPERATIONS = {"echo": op_echo, "scale": op_scale, "do_phase_rec": op_phase, "fail": op_fail, "unpackable": op_unpackable, "write": op_write, "none": op_none, "slow": op_slow}
RESERVED = ["send_msg", "recv_msg", "run", "process", "__init__", "__class__", "__dict__", "socket", "context", "_private", "__repr__", "__eq__", "send_socket", "receive_socket", "", "no_such", "do phase rec", "DO_PHASE_REC", "data_x"]
MALFORMED = ["one frame", "three frames", "garbage", "truncated", "empty", "int keys", "bad header", "deep", "not a map", "bad array"]


def direct(header, msg):
    """("OK", result) or ("ERR", None) as prescribed by the operation, without any worker"""
    from qampy.core import processing
    if header not in OPERATIONS:
        return ("ERR", None)
    try:
        v = OPERATIONS[header](msg)
        processing.unpack_array(processing.pack_array(v))
    except Exception:
        return ("ERR", None)
    return ("OK", v)


def worker_class(kind):
    from qampy.core import processing
    if kind == "pp":
        class W(processing.PPWorker):
            def _private(self, **m):
                return m
        for n, f in OPERATIONS.items():
            if n != "do_phase_rec":
                setattr(W, n, lambda self, _op=f, **m: _op(m))
        W.do_phase_rec = lambda self, **m: op_phase(m)
        return W

    class W(processing.PhRecWorker):
        def _private(self, m):
            return m
    for n, f in OPERATIONS.items():
        if n != "do_phase_rec":
            setattr(W, n, lambda self, m, f=f: f(m))
    return W


class C13(harness.Check):
    id = "C13"
    technique = "deterministic simulation of the worker network (simulated ZeroMQ sockets, connections, crashes and scheduling)"
    runs = {"quick": 5000, "thorough": 60000}
    rule = ("a run is 1-4 workers of one kind (request/reply or push/pull) and a client with 1-14 requests (phase recovery, echoes of arrays of any type and layout, failing operations, unknown and reserved names, malformed messages); "
            "the scheduler decides the order of deliveries and of all parties at every socket operation and, in some runs, line of the library, and injects worker crashes and restarts, broken connections and lost messages; "
            "non-trivial if at least two requests were served")
    state_measure = "distinct sequences of (operation, answer) a worker served"
    real = ["qampy.core.processing (workers, dealer, sink, packing), msgpack and msgpack_numpy, the phase recovery with its compiled kernel, real threads"]
    stubs = ["zmq (sockets, connections, queues; semantics of REP, DEALER, PUSH, PULL as documented)", "thread scheduling"]
    assumptions = ["a crashed worker loses everything it had not sent", "connections keep messages in order and lose them only when they break", "client-side retry after a loss is the caller's business; it is part of the simulated client"]
    required_probes = ["OK", "ERR", "malformed", "reserved name", "worker crash", "connection broken", "stopped in the library", "push-pull", "several workers", "phase recovery", "odd layout"]

    def setup(self):
        zmqsim.install()
        self.broken = None
        try:
            from qampy.core import processing      # noqa
        except Exception as e:
            self.broken = repr(e)

    def request(self, rng, i):
        x = rng.random()
        if x < .05:
            # two callers may well have given the same name to different requests
            return ["twin", {"id": "twin", "M": rng.choice([4, 16]), "n": 1, "N": 2, "angles": rng.choice([8, 16]), "seed": rng.randint(0, 999), "dtype": "complex128"}]
        if x < .2:
            return ["do_phase_rec", {"id": i, "M": rng.choice([4, 16]), "n": rng.choice([1, 1, 2]), "N": rng.randint(2, 4), "angles": rng.choice([8, 16]), "seed": rng.randint(0, 999), "dtype": rng.choice(["complex128", "complex64"])}]
        if x < .45:
            return ["echo", {"id": i, "v": gen_value(rng)}]
        if x < .55:
            return ["scale", {"id": i, "v": gen_value(rng, 3), "f": rng.choice([2, 0.5])}]
        if x < .65:
            return ["fail", {"id": i, "how": rng.choice(HOWS)}]
        if x < .7:
            return ["unpackable", {"id": i, "kind": rng.choice(["a", "function", "set", "nested"])}]
        if x < .73:
            return ["write", {"id": i, "v": gen_value(rng, 3)}]
        if x < .76:
            return ["none", {"id": i}]
        if x < .82:
            return ["slow", {"id": i, "n": rng.randint(1, 4)}]
        if x < .91:
            return ["reserved", {"id": i, "name": rng.choice(RESERVED)}]
        return ["malformed", {"id": i, "how": rng.choice(MALFORMED), "seed": rng.randint(0, 9999)}]

    def gen(self, rng, tier, index):
        n = rng.choice([1, 1, 2, 3, 4])
        return {"kind": rng.choice(["rep", "rep", "rep", "pp"]), "workers": n, "requests": [self.request(rng, i) for i in range(rng.randint(1, 14))], "faults": rng.choice([0, 0, 1, 2, 4]), "lines": rng.choice([0, 0, 0, .05, .3]),
                "window": rng.choice([1, 2, 100]), "port": rng.choice([None, None, 5600]), "seed": rng.getrandbits(30), "plan": None, "helpers": [gen_value(rng) for _ in range(rng.choice([0, 1, 2]))]}

    # -- messages
    def message(self, q, kind):
        """(header, message as object) or (None, frames) of a request"""
        h, p = q
        if h in ("do_phase_rec", "twin"):
            h = "do_phase_rec"
            from qampy import signals
            s = signals.SignalQAMGrayCoded(p["M"], 30, nmodes=p["n"], seed=p["seed"], dtype=np.dtype(p["dtype"]).type)
            E = np.array(s) * np.exp(0.3j)
            return h, {"id": p["id"], "data": E[0] if p["n"] == 1 else E, "Mtestangles": p["angles"], "symbols": np.array(s.coded_symbols), "N": p["N"]}
        if h in ("echo", "scale", "write"):
            return h, {"id": p["id"], "data": value(p["v"]), "f": p.get("f", 1)}
        if h in ("fail", "unpackable", "none", "slow"):
            return h, {k: v for k, v in p.items()}
        if h == "reserved":
            return p["name"], {"id": p["id"]}
        from qampy.core import processing
        good = processing.pack_array({"id": p["id"] + 1000, "data": np.arange(5.)})
        r = random.Random(p["seed"])
        how = p["how"]
        if how == "one frame":
            return None, [b"echo"]
        if how == "three frames":
            return None, [b"echo", good, good]
        if how == "garbage":
            return None, [b"echo", bytes(r.randrange(256) for _ in range(r.randint(1, 30)))]
        if how == "truncated":
            return None, [b"echo", good[:r.randrange(len(good))]]
        if how == "empty":
            return None, [b"echo", b""]
        if how == "int keys":
            return None, [b"echo", b"\x81\x01\x02"]
        if how == "bad header":
            return None, [bytes([0xff, r.randrange(256)]), good]
        if how == "deep":
            return None, [b"echo", b"\x91" * 3000 + b"\x01"]
        if how == "not a map":
            return None, [b"scale", processing.pack_array([1, 2])]
        b = bytearray(good)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return None, [b"echo", bytes(b)]

    def expected(self, header, frames, kind):
        from qampy.core import processing
        try:
            if len(frames) != 2:
                return ("ERR", None)
            name = frames[0].decode("ascii")
            msg = processing.unpack_array(frames[1])
        except Exception:
            return ("ERR", None)
        if kind == "pp" and not (isinstance(msg, dict) and all(isinstance(k, str) for k in msg)):
            return ("ERR", None)
        return direct(name, msg)

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        if self.broken:
            res.fail("no worker can be started", "importing qampy.core.processing: %s" % self.broken, key="import")
            return
        with contextlib.redirect_stdout(io.StringIO()):
            self._run(sc, res)

    def _run(self, sc, res):
        from qampy.core import processing
        w = zmqsim.world = zmqsim.World(random.Random(sc["seed"]), sc["plan"], sc["lines"])
        zmqsim.Context._one = None
        kind = sc["kind"]
        W = worker_class(kind)
        self.res, self.sc = res, sc
        live = {}             # worker number -> (task, incarnation)
        socks = []            # (name, in-socket, out-socket, task)
        box = {}

        def start(k):
            n = sum(1 for s in socks if s[0].startswith("worker %d." % k))
            holder = {}

            def body():
                if kind == "pp":
                    o = W(box["sink"], "tcp://127.0.0.1:5500")
                    holder["w"] = (o.receive_socket, o.send_socket)
                else:
                    o = W(box["url"])
                    holder["w"] = (o.socket, o.socket)
                o.run()
            t = w.spawn("worker %d.%d" % (k, n), body)
            live[k] = t
            socks.append((t.name, holder, t))

        def client():
            if kind == "pp":
                ctx = processing.zmq.Context.instance()
                vent = ctx.socket(processing.zmq.PUSH)
                vent.bind("tcp://127.0.0.1:5500")
                sink = processing.ResultSink("tcp://127.0.0.1", port=sc["port"])
                box["sink"] = "tcp://127.0.0.1:%s" % sink.port
                box["d"] = None
                send = lambda header, m: vent.send_multipart([header.encode(), processing.pack_array(m)])
                raw = vent.send_multipart
                rsock = sink.socket

                def recv():
                    ok, body = rsock.recv_multipart()
                    if ok != b"OK":
                        raise Exception([b"", ok, body])
                    return processing.unpack_array(body)
            else:
                d = processing.DataDealer("tcp://127.0.0.1", port=sc["port"])
                box["url"] = "tcp://127.0.0.1:%s" % d.port
                send = lambda header, m: d.send_msg(header.encode(), m)
                raw = lambda fr: d.socket.send_multipart([b""] + fr)
                rsock = d.socket
                recv = d.recv_msg
            box["rsock"] = rsock
            box["up"] = True
            todo = list(range(len(sc["requests"])))
            box.update(got=[], errors=0, sent=[])
            out = 0
            while True:
                while todo and (out < sc["window"] or box.get("stop")):
                    i = todo.pop(0)
                    header, m = self.message(sc["requests"][i], kind)
                    if header is None:
                        raw(m)
                    else:
                        send(header, m)
                    box["sent"].append(i)
                    out += 1
                if not todo and box.get("stop"):
                    return
                # wait for an answer, or for being told that one got lost
                w.yield_(lambda: bool(rsock.incoming()) or box.get("lost", 0) > 0 or bool(box.get("again")) or bool(box.get("stop")))
                if box.get("again"):
                    todo = sorted(set(todo) | set(box.pop("again")))
                    out = 0
                    continue
                if not rsock.incoming():
                    if box.get("lost", 0) > 0:
                        box["lost"] -= 1
                        out -= 1
                    continue
                try:
                    v = recv()
                    box["got"].append(v)
                except zmqsim.Crash:
                    raise
                except Exception as e:
                    fr = e.args[0] if e.args else None
                    if not (isinstance(fr, list) and b"ERR" in fr):
                        raise
                    box["errors"] += 1
                out -= 1
        c = w.spawn("client", client)
        budget = sc["faults"]
        limit = 4000 + 400 * len(sc["requests"])
        mon = pysim.Monitor(w.line, "line", only=lambda co: co.co_filename.endswith("processing.py")) if sc["lines"] else contextlib.nullcontext()
        try:
            with mon:
                while not box.get("up"):
                    w.step()
                    if c.state == "done":
                        raise self.oops(c)
                for k in range(sc["workers"]):
                    start(k)
                faults = True
                rounds = 0
                while True:
                    if w.steps > limit * 3 or rounds > 3:
                        res.fail("no progress", "requests %s unanswered after %d steps" % (self.missing(box), w.steps), key="progress")
                        return
                    if faults and budget and w.chance(.06):
                        budget -= 1
                        self.fault(w, live, start, box, res)
                        continue
                    if not w.step():
                        dead = self.dead(socks, res)
                        if dead:
                            return
                        if faults:
                            # nothing can happen any more: faults stop, everybody is back
                            faults = False
                            for k in range(sc["workers"]):
                                if live[k].state == "done":
                                    start(k)
                            box["lost"] = box.get("lost", 0)
                            again = self.missing(box)
                            if again:
                                box["again"] = again
                            continue
                        if c.state == "done":
                            break
                        rounds += 1
                        again = self.missing(box)
                        if again and rounds <= 2:
                            # (malformed requests and errors carry no id: all without an answer are sent again)
                            box["again"] = again
                            continue
                        box["stop"] = True
                        continue
                    if c.state == "done" and c.outcome[0] == "raised":
                        raise self.oops(c)
                self.judge(w, socks, box, res)
        finally:
            w.end()
        res.sim_steps += w.steps
        res.concrete = dict(sc, plan=w.choices)
        for k in ("stopped in the library", "worker crash", "connection broken", "lost messages"):
            if w.stats[k]:
                res.stats["probe:" + k] += 1
                res.stats["fault:" + k] += w.stats[k]
        res.stats["probe:push-pull"] += kind == "pp"
        res.stats["probe:several workers"] += sc["workers"] > 1
        res.stats["delivered messages"] += w.stats["delivered"]
        if res.violation is None:
            self.helpers(sc, res)

    def oops(self, c):
        e = c.outcome[1] if c.outcome and c.outcome[0] == "raised" else None
        if e is None:
            return harness.HarnessError("the client ended early")
        e.__traceback__ = e.__traceback__
        return e

    def missing(self, box):
        have = {v.get("id") for v in box["got"] if isinstance(v, dict)}
        out = []
        for i, q in enumerate(self.sc["requests"]):
            if q[0] in ("do_phase_rec", "echo", "slow") and i not in have:
                out.append(i)
        return out

    def fault(self, w, live, start, box, res):
        k = w.pick(len(live))
        what = w.pick(3)
        if what == 0:
            w.stats["worker crash"] += 1
            w.kill(live[k])
            box["lost"] = box.get("lost", 0) + 1
            if w.pick(3) != 0:
                start(k)
        elif what == 1:
            ps = [p for p in w.pipes if p.up]
            if ps:
                p = ps[w.pick(len(ps))]
                w.stats["connection broken"] += 1
                n = w.reset(p)
                w.stats["lost messages"] += n
                box["lost"] = box.get("lost", 0) + n
        elif live[k].state == "done":
            start(k)

    def dead(self, socks, res):
        for name, holder, t in socks:
            if t.state == "done" and t.outcome[0] != "crashed":
                e = t.outcome[1]
                last = holder.get("w", (None,))[0]
                lg = [x for x in last.log if x[0] == "in"] if last is not None else []
                req = self.label(lg[-1][1]) if lg else "nothing"
                res.fail("worker stopped serving", "%s ended with %r after receiving %s" % (name, e, req), key="died:%s:%s" % (self.sc["kind"], type(e).__name__))
                return True
        return False

    def label(self, frames):
        h = frames[0].decode("ascii", "replace") if frames else ""
        return "%s (%d frames)" % (h[:30], len(frames))

    def judge(self, w, socks, box, res):
        if self.dead(socks, res):
            return
        from qampy.core import processing
        served = 0
        for name, holder, t in socks:
            if "w" not in holder:
                continue
            sin, sout = holder["w"]
            if sin is sout:
                log = list(sin.log)
                for a, b in zip(log, log[1:]):
                    if a[0] == b[0]:
                        res.fail("not one answer per request", "%s: two %s in a row" % (name, "requests" if a[0] == "in" else "answers"), key="once")
                        return
                ins = [f for d, f in log if d == "in"]
                outs = [f for d, f in log if d == "out"]
            else:
                ins = [f for d, f in sin.log if d == "in"]
                outs = [f for d, f in sout.log if d == "out"]
            crashed = t.outcome is not None and t.outcome[0] == "crashed" and t.killed
            if len(outs) > len(ins) or (len(outs) < len(ins) and not (crashed and len(ins) - len(outs) <= 1)):
                # the simulator itself ends workers only when they wait for a request
                waiting = len(ins) == len(outs)
                if not waiting and not crashed:
                    res.fail("not one answer per request", "%s: %d requests, %d answers" % (name, len(ins), len(outs)), key="once")
                    return
                if len(outs) > len(ins):
                    res.fail("not one answer per request", "%s: %d requests, %d answers" % (name, len(ins), len(outs)), key="once")
                    return
            story = []
            for fr, an in zip(ins, outs):
                served += 1
                st, v = self.expected(None, fr, self.sc["kind"])
                res.event(name, fr[0][:40] if fr else b"", an[0])
                story.append((fr[0][:20] if fr else b"", an[0]))
                res.stats["probe:" + st] += 1
                if len(an) != 2 or an[0] not in (b"OK", b"ERR"):
                    res.fail("malformed answer", "%s: %r" % (self.label(fr), [x[:60] for x in an]), key="form")
                    return
                if an[0].decode() != st:
                    res.fail("wrong answer", "%s: %s instead of %s (%s)" % (self.label(fr), an[0].decode(), st, an[1][:200]), key="status:%s" % self.what(fr))
                    return
                try:
                    u = processing.unpack_array(an[1])
                except Exception as e:
                    res.fail("malformed answer", "%s: the answer can not be unpacked: %r" % (self.label(fr), e), key="form")
                    return
                if st == "OK" and not same(v, u):
                    res.fail("wrong answer", "%s: another result" % self.label(fr), key="result:%s" % self.what(fr))
                    return
                if fr and fr[0] == b"do_phase_rec" and st == "OK":
                    res.stats["probe:phase recovery"] += 1
            res.state(tuple(story))
        for q in self.sc["requests"]:
            res.stats["probe:malformed"] += q[0] == "malformed"
            res.stats["probe:reserved name"] += q[0] == "reserved"
            res.stats["requests " + q[0]] += 1
            if q[0] == "echo" and q[1]["v"][0] == "array":
                res.stats["probe:odd layout"] += q[1]["v"][1]["layout"] not in ("C", "read-only")
        res.nontrivial = served >= 2
        # what the client got: its own data, under the id it sent them with
        for v in box["got"]:
            if isinstance(v, dict) and "id" in v:
                i = v["id"]
                if i == "twin":
                    if not any(same(direct("do_phase_rec", self.message(q, self.sc["kind"])[1])[1], v) for q in self.sc["requests"] if q[0] == "twin"):
                        res.fail("answer does not belong to its request", "twin", key="belongs:twin")
                        return
                    continue
                if not isinstance(i, int) or not 0 <= i < len(self.sc["requests"]):
                    if any(q[0] == "malformed" for q in self.sc["requests"]):
                        continue
                    res.fail("answer to no request", repr(i), key="id")
                    return
                q = self.sc["requests"][i]
                if q[0] == "malformed":
                    continue
                header, m = self.message(q, self.sc["kind"])
                if q[0] in ("echo", "slow"):
                    ok = same(m, v)
                elif q[0] == "scale":
                    st, want = direct("scale", m)
                    ok = st == "OK" and same(want, v)
                elif q[0] == "do_phase_rec":
                    st, want = direct("do_phase_rec", m)
                    ok = st == "OK" and same(want, v)
                else:
                    continue
                if not ok:
                    res.fail("answer does not belong to its request", "request %d (%s)" % (i, q[0]), key="belongs:" + q[0])
                    return
        miss = self.missing(box)
        if miss:
            res.fail("no progress", "requests %s (%s) never answered although faults stopped" % (miss, [self.sc["requests"][i][0] for i in miss]), key="progress")

    def what(self, fr):
        h = fr[0].decode("ascii", "replace") if fr else ""
        return h if h in OPERATIONS else "unknown"

    def helpers(self, sc, res):
        """arrays sent from one place to another without a worker"""
        from qampy.core import processing
        w = zmqsim.world = zmqsim.World(random.Random(sc["seed"] + 1))
        out = []

        def b():
            s = processing.zmq.Context.instance().socket(processing.zmq.PULL)
            s.bind("tcp://x:1")
            for _ in sc["helpers"]:
                out.append(processing.recv_array(s))

        def a():
            s = processing.zmq.Context.instance().socket(processing.zmq.PUSH)
            s.connect("tcp://x:1")
            for v in sc["helpers"]:
                processing.send_array(s, value(v))
        ts = [w.spawn("a", a), w.spawn("b", b)]
        while w.step():
            pass
        bad = [t for t in ts if t.outcome is None or t.outcome[0] != "ok"]
        w.end()
        if bad:
            e = bad[0].outcome
            if e and e[0] == "raised":
                raise e[1]
            res.fail("arrays do not arrive", "%d of %d" % (len(out), len(sc["helpers"])), key="helpers")
            return
        for v, g in zip(sc["helpers"], out):
            if not same(value(v), g):
                res.fail("array changed on its way", json.dumps(v), key="helpers")
                return

    def shrink(self, sc):
        r = sc["requests"]
        if len(r) > 1:
            for k in (len(r) // 2, 1):
                for a in range(0, len(r), max(k, 1)):
                    q = [[x[0], dict(x[1], id=i if x[0] != "twin" else "twin")] for i, x in enumerate(r[:a] + r[a + max(k, 1):])]
                    if q:
                        yield dict(sc, requests=q, plan=None)
        for n in range(1, sc["workers"]):
            yield dict(sc, workers=n, plan=None)
        if sc["faults"]:
            yield dict(sc, faults=0, plan=None)
        if sc["lines"]:
            yield dict(sc, lines=0, plan=None)
        if sc["helpers"]:
            yield dict(sc, helpers=[])
        if sc["window"] != 1:
            yield dict(sc, window=1, plan=None)


CHECK = C13
