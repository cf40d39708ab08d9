"""Deterministic scheduler for several processes: one runs at a time, and is stopped (or killed) after a number of points.

Every caller is a forked process that counts the bytecodes it executes in the library.  It stops when the number
granted by the scheduler is used up and waits for the next grant; the scheduler, in the parent, decides
with a seeded generator or from a recorded list who goes on and for how long.  A process can be killed (SIGKILL) at a stop.
"""
import dis
import json
import mmap
import os
import select
import signal
import struct

from vsim import harness, pysim


def can_raise(code, where):
    """interrupts and failures arrive in calls, not e.g. at the NOP between two blocks"""
    return dis.opname[code.co_code[where]].startswith("CALL")


class Child:
    """in the forked process"""

    def __init__(self, i, r, w, clock, only):
        self.i, self.r, self.w, self.clock, self.only = i, r, w, clock, only
        self.left = 0
        self.fault = None         # [points left, exception]

    def tick(self):
        v = struct.unpack_from("<q", self.clock)[0] + 1
        struct.pack_into("<q", self.clock, 0, v)
        return v

    def send(self, *a):
        os.write(self.w, (json.dumps(a) + "\n").encode())

    def wait(self):
        d = b""
        while not d.endswith(b"\n"):
            c = os.read(self.r, 64)
            if not c:
                os._exit(0)
            d += c
        self.left = int(d)

    def point(self, code, where):
        self.tick()
        self.left -= 1
        if self.left <= 0:
            self.send("at", "%s:%d" % (code.co_name, where))
            self.wait()
        f = self.fault
        if f is not None:
            f[0] -= 1
            if f[0] <= 0 and can_raise(code, where):
                self.fault = None
                self.send("fault", "%s:%d" % (code.co_name, where))
                raise f[1]

    def go(self, fn):
        self.wait()
        with pysim.Monitor(self.point, "opcode", self.only):
            fn(self)
        self.send("done")


class Sim:
    def __init__(self, rng=None, quantum=50, plan=None, kills=(), only=None, message=None):
        self.rng, self.quantum, self.plan, self.only, self.message = rng, quantum, plan, only, message
        self.kills = {i: n for i, n in kills}
        self.trace, self.pairs, self.where, self.killed = [], set(), {}, {}

    def run(self, fns):
        """fns: functions of the Child"""
        self.clock = mmap.mmap(-1, 8)
        ch = []
        for i, f in enumerate(fns):
            ar, aw = os.pipe()
            br, bw = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(aw)
                    os.close(br)
                    for c in ch:
                        os.close(c["to"])
                        os.close(c["from"])
                    Child(i, ar, bw, self.clock, self.only).go(f)
                    code = 0
                except BaseException as e:
                    import traceback
                    try:
                        os.write(bw, (json.dumps(["broken", traceback.format_exc()]) + "\n").encode())
                    except Exception:
                        pass
                finally:
                    os._exit(code)
            os.close(ar)
            os.close(bw)
            ch.append({"pid": pid, "to": aw, "from": br, "buf": b"", "used": 0})
        try:
            self.loop(ch)
        finally:
            for c in ch:
                os.close(c["to"])
                try:
                    os.kill(c["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.close(c["from"])
                os.waitpid(c["pid"], 0)
        return struct.unpack_from("<q", self.clock)[0]

    def now(self):
        v = struct.unpack_from("<q", self.clock)[0] + 1
        struct.pack_into("<q", self.clock, 0, v)
        return v

    def read(self, c):
        while b"\n" not in c["buf"]:
            if not select.select([c["from"]], [], [], 60)[0]:
                raise harness.HarnessError("a process neither stops nor ends")
            d = os.read(c["from"], 65536)
            if not d:
                return ["gone"]
            c["buf"] += d
        line, c["buf"] = c["buf"].split(b"\n", 1)
        return json.loads(line)

    def loop(self, ch):
        live = list(range(len(ch)))
        last = None
        plan = None if self.plan is None else list(self.plan)
        while live:
            if plan is None:
                i = self.rng.choice(live)
                k = 1 + int(self.rng.expovariate(1 / self.quantum))
            elif plan:
                i, k = plan.pop(0)
                if i not in live:
                    continue
            else:
                i, k = live[0], 1 << 40
            c = ch[i]
            if i in self.kills:
                k = min(k, self.kills[i] - c["used"])
            if last is not None and last != i:
                self.pairs.add((self.where.get(last, "start"), self.where.get(i, "start")))
            if self.trace and self.trace[-1][0] == i:
                self.trace[-1][1] += k
            else:
                self.trace.append([i, k])
            last = i
            os.write(c["to"], b"%d\n" % k)
            c["used"] += k
            while True:
                m = self.read(c)
                if m[0] == "at":
                    self.where[i] = m[1]
                    if i in self.kills and c["used"] >= self.kills[i]:
                        os.kill(c["pid"], signal.SIGKILL)
                        self.killed[i] = (self.now(), m[1])
                        live.remove(i)
                    break
                if m[0] == "done":
                    self.where[i] = "end"
                    live.remove(i)
                    break
                if m[0] in ("gone", "broken"):
                    raise harness.HarnessError("a process died: %s" % m[1:])
                if self.message:
                    self.message(i, m)
