"""Deterministic scheduler for Python callers: one runs at a time, switches happen at traced points only.

Every thread is a real one, but it waits for the baton except when the scheduler hands it over; the
scheduler is called (through sys.monitoring) at every line or bytecode executed in QAMpy's sources and decides with a seeded
generator, or from a recorded list, whether another caller goes on.  Faults are exceptions raised at
such a point.
"""
import dis
import functools
import os
import sys
import threading
import types

import numpy as np

from vsim import harness, kernels, mem, ops, session, sigs, state

LIB = os.path.join(kernels.REPO, "qampy") + os.sep
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
current = None     # the running simulation


class Deadlock(BaseException):
    """a caller waits for a lock that nobody will release"""


class SimLock:
    """a lock the scheduler knows about (library code may create locks)"""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if current is None or not current.block(self):
                raise Deadlock("a lock of the library is never released")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def patch_locks():
    """before the library is imported: locks it creates are simulated"""
    def make(reentrant):
        real = REAL_RLOCK if reentrant else REAL_LOCK

        def new(*a, **k):
            f = sys._getframe(1)
            return SimLock(reentrant) if f.f_code.co_filename.startswith(LIB) else real(*a, **k)
        return new
    threading.Lock, threading.RLock = make(False), make(True)


def codes():
    """code objects of all Python functions of the library that are loaded"""
    seen, todo = {}, []

    def code(c):
        if c.co_filename.startswith(LIB) and id(c) not in seen:
            seen[id(c)] = c
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    code(k)

    def obj(o, depth=0):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                obj(f, depth)
        elif isinstance(o, functools.partial):
            obj(o.func, depth)
        elif isinstance(o, types.FunctionType):
            code(o.__code__)
            if hasattr(o, "__wrapped__"):
                obj(o.__wrapped__, depth)
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if isinstance(v, types.FunctionType) and v.__code__.co_filename.startswith(LIB) and id(v.__code__) not in seen:
                    obj(v, depth)
        elif isinstance(o, type) and depth < 4 and getattr(o, "__module__", "").startswith("qampy"):
            for v in list(vars(o).values()):
                obj(v, depth + 1)
        elif hasattr(o, "__wrapped__") and depth < 4:
            obj(o.__wrapped__, depth + 1)
    for n, m in sorted(sys.modules.items()):
        if n.split(".")[0] == "qampy" and m is not None:
            for v in list(vars(m).values()):
                obj(v)
    return list(seen.values())


class Monitor:
    """calls back at every line or bytecode of the library (and nowhere else), in whatever thread"""
    TOOL = 4

    def __init__(self, callback, what="line", only=None):
        self.callback, self.what, self.only = callback, what, only

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "vsim")
        ev = {"line": m.events.LINE, "opcode": m.events.INSTRUCTION}[self.what]
        m.register_callback(self.TOOL, ev, self.callback)
        self.codes = [c for c in codes() if self.only is None or self.only(c)]
        for c in self.codes:
            m.set_local_events(self.TOOL, c, ev)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        for c in self.codes:
            m.set_local_events(self.TOOL, c, 0)
        for ev in (m.events.LINE, m.events.INSTRUCTION):
            m.register_callback(self.TOOL, ev, None)
        m.free_tool_id(self.TOOL)


class Sim:
    def __init__(self, rng=None, p=0.1, switches=None, opcode=False, on_switch=None, calls=False):
        self.rng, self.p, self.opcode, self.on_switch, self.calls = rng, p, opcode, on_switch, calls
        self.plan = None if switches is None else {a: b for a, b in switches}
        self.step = 0
        self.trace = []          # [step, thread]: when another thread took over
        self.pairs = set()       # (where one stopped, where the other one was)
        self.where = {}

    def run(self, fns):
        global current
        n = len(fns)
        self.live = set(range(n))
        self.blocked = {}
        self.batons = [REAL_LOCK() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.done = REAL_LOCK()
        self.done.acquire()
        out = [None] * n
        self.error = None
        current = self

        def body(i, fn):
            mem.use()
            self.batons[i].acquire()
            self.me = i
            try:
                out[i] = ("ok", fn())
            except BaseException as e:
                out[i] = ("raised", e)
            finally:
                self.finish(i)

        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        with Monitor(self.point, "opcode" if self.opcode else "line"):
            for t in ts:
                t.start()
            self.me = self.choose(list(range(n)))
            self.batons[self.me].release()
            self.done.acquire()
            for t in ts:
                t.join()
        current = None
        if self.error:
            raise harness.HarnessError(self.error)
        return out

    # -- scheduling
    def choose(self, cands):
        self.step += 1
        if self.plan is not None:
            i = self.plan.get(self.step)
            i = i if i in cands else cands[0]
        else:
            i = self.rng.choice(cands)
        self.trace.append([self.step, i])
        return i

    def runnable(self):
        return [i for i in sorted(self.live) if i not in self.blocked or self.blocked[i].owner is None]

    def finish(self, i):
        self.live.discard(i)
        c = self.runnable()
        if c:
            self.me = self.choose(c)
            self.batons[self.me].release()
        else:
            if self.live:
                self.error = "all callers are blocked"
            self.done.release()

    def hand(self, me, other):
        self.me = other
        if self.on_switch:
            self.on_switch()
        self.batons[other].release()
        self.batons[me].acquire()

    def block(self, lock):
        me = self.me
        self.blocked[me] = lock
        c = [i for i in self.runnable() if i != me]
        if not c:
            return False
        self.hand(me, self.choose(c))
        self.blocked.pop(me, None)
        return True

    def between(self, p=.5):
        """a point between two operations"""
        self.switch("between", p)

    def point(self, code, where):
        if self.calls and not dis.opname[code.co_code[where]].startswith("CALL"):
            self.step += 1
            return
        self.switch("%s:%d" % (code.co_name, where), self.p)

    def switch(self, here, p):
        self.step += 1
        if self.plan is not None:
            other = self.plan.get(self.step)
            if other is None or other == self.me or other not in self.live:
                return
        else:
            if len(self.live) < 2 or self.rng.random() >= p:
                return
            c = [i for i in self.runnable() if i != self.me]
            if not c:
                return
            other = self.rng.choice(c)
        me = self.me
        self.where[me] = here
        self.pairs.add((here, self.where.get(other, "start")))
        self.trace.append([self.step, other])
        self.hand(me, other)


class Abort:
    """an exception raised at the n-th point a call passes in the library"""

    def __init__(self, n, exc, what="opcode", only=None):
        self.n, self.exc, self.what, self.only = n, exc, what, only
        self.count, self.place = 0, None

    def point(self, code, where):
        self.count += 1
        if self.count == self.n:
            self.place = "%s:%d" % (code.co_name, where)
            raise self.exc

    def call(self, fn):
        """("ok", value) or ("raised", exception); self.count points were passed"""
        with Monitor(self.point, self.what, self.only):
            try:
                v = ("ok", fn())
            except BaseException as e:
                v = ("raised", e)
        return v


def outcome(v):
    """what a caller got, as something comparable"""
    if v[0] == "raised":
        return "raised %s: %s" % (type(v[1]).__name__, str(v[1])[:200])
    return v[1]


def job(spec, seq, root, name, sig=None):
    """one caller: its own signal through a chain of operations; returns the picture after each of them"""
    def go():
        s = sigs.make(spec) if sig is None else sig
        log = [session.value(s)]
        for k, op in enumerate(seq):
            if op[0] == "store":
                p = os.path.join(root, "%s.sig" % name)
                s.save_to_file(p)
                from qampy.core import io as cio
                s = cio.load_signal(p)
                log.append(["store", session.value(s)])
                continue
            if not ops.applicable(op, s):
                log.append([op[0], "skipped"])
                continue
            o = ops.OPS[op[0]]
            try:
                v = ops.call(op, s)
            except Exception as e:
                log.append([op[0], "raised %s: %s" % (type(e).__name__, str(e)[:200])])
                continue
            log.append([op[0], session.value(list(v) if isinstance(v, tuple) else v), session.value(s)])
            if o.kind == "new" and session.keep(ops.signal_of(v)):
                s = ops.signal_of(v)
        return log
    return go


def first_difference(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return "%s instead of %s" % (b if isinstance(b, str) else "a result", a if isinstance(a, str) else "a result")
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, list):
                d = y[1] if isinstance(y, list) and str(y[1]).startswith("raised") else ("changed input" if isinstance(y, list) and x[1] == y[1] else "another result")
                return "step %d (%s): %s" % (k, x[0], d)
            return "step %d: another signal" % k
    return "another number of steps"
