"""ZeroMQ in one process: sockets, connections and their failures under a seeded scheduler.

A stand-in for the zmq module (constants and everything else come from the real one).  Every party is
a real thread that runs only when the scheduler lets it; it yields in every socket operation (and at
lines of the library, when asked to).  Messages travel one by one; the scheduler decides when each is
delivered, which connections break, and who crashes and comes back.
"""
import collections
import importlib
import sys
import threading
import types

from vsim import harness, mem, pysim

REAL = importlib.import_module("zmq")
Lock = pysim.REAL_LOCK


class Crash(BaseException):
    """the process this code runs in is gone"""


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.baton = Lock()
        self.baton.acquire()
        self.state = "ready"        # ready, waiting, done
        self.wait = None            # condition it waits for
        self.killed = False
        self.outcome = None
        self.sockets = []


class Pipe:
    """one connection; messages keep their order in each direction"""

    def __init__(self, a, b):
        self.ends = (a, b)
        self.flight = {a: collections.deque(), b: collections.deque()}     # towards a, towards b
        self.inbox = {a: collections.deque(), b: collections.deque()}
        self.up = True

    def other(self, s):
        return self.ends[1] if s is self.ends[0] else self.ends[0]


class World:
    def __init__(self, rng, plan=None, p_line=0.0):
        self.rng, self.plan = rng, None if plan is None else list(plan)
        self.tasks, self.pipes, self.bound, self.waiting = [], [], {}, []
        self.back = Lock()
        self.back.acquire()
        self.current = None
        self.choices = []          # every decision, for replay
        self.steps = 0
        self.stats = collections.Counter()
        self.faults = True
        self.p_line = p_line
        self.ports = 5000

    # -- decisions
    def pick(self, n):
        """one of n alternatives"""
        if n <= 1:
            return 0
        k = len(self.choices)
        if self.plan is not None:
            v = self.plan[k] if k < len(self.plan) else 0
            v = v if v < n else 0
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    def chance(self, p):
        k = len(self.choices)
        if self.plan is not None:
            v = self.plan[k] if k < len(self.plan) else 0
            v = 1 if v else 0
        else:
            v = int(self.rng.random() < p)
        self.choices.append(v)
        return bool(v)

    # -- tasks
    def spawn(self, name, fn):
        t = Task(name, fn)

        def body():
            mem.use()
            t.baton.acquire()
            try:
                if t.killed:
                    raise Crash()
                t.outcome = ("ok", fn())
            except Crash:
                t.outcome = ("crashed", None)
            except BaseException as e:
                t.outcome = ("raised", e)
            t.state = "done"
            self.back.release()
        t.thread = threading.Thread(target=body, daemon=True)
        t.thread.start()
        self.tasks.append(t)
        return t

    def resume(self, t):
        self.current = t
        self.steps += 1
        t.state = "ready"
        t.baton.release()
        self.back.acquire()
        self.current = None

    def yield_(self, wait=None):
        """called by the running task: let the others go on (until wait() holds)"""
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            if wait is not None and not wait():
                raise harness.HarnessError("blocking outside a task")
            return
        if t.killed:
            raise Crash()
        t.wait = wait
        t.state = "waiting" if wait else "ready"
        self.back.release()
        t.baton.acquire()
        if t.killed:
            raise Crash()

    def line(self, code, where):
        t = self.current
        if t is None or threading.current_thread() is not t.thread or t.killed:
            return
        if self.chance(self.p_line):
            self.stats["stopped in the library"] += 1
            self.yield_()

    def ready(self):
        return [t for t in self.tasks if t.state == "ready" or (t.state == "waiting" and (t.killed or t.wait()))]

    def deliverable(self):
        return [(p, s) for p in self.pipes for s in p.ends if p.up and p.flight[s]]

    def step(self):
        """one scheduling decision; False if nothing can happen"""
        r, d = self.ready(), self.deliverable()
        if not r and not d:
            return False
        k = self.pick(len(r) + len(d))
        if k < len(r):
            self.resume(r[k])
        else:
            p, s = d[k - len(r)]
            m = p.flight[s].popleft()
            p.inbox[s].append(m)
            self.stats["delivered"] += 1
        return True

    def kill(self, t):
        """the process of t stops here and now"""
        if t.state == "done":
            return
        t.killed = True
        for s in t.sockets:
            s.vanish()
        while t.state != "done":
            self.resume(t)

    def reset(self, p):
        """the connection breaks and is made again: what was under way is lost"""
        n = sum(len(q) for q in p.flight.values())
        for q in p.flight.values():
            q.clear()
        return n

    def connect(self, url, s):
        if url in self.bound:
            self.pipes.append(Pipe(s, self.bound[url]))
        else:
            self.waiting.append((url, s))

    def bind(self, url, s):
        if url in self.bound:
            raise REAL.ZMQError(REAL.EADDRINUSE)
        self.bound[url] = s
        for u, c in [w for w in self.waiting if w[0] == url]:
            self.pipes.append(Pipe(c, s))
        self.waiting = [w for w in self.waiting if w[0] != url]

    def end(self):
        for t in self.tasks:
            if t.state != "done":
                self.kill(t)
        for t in self.tasks:
            t.thread.join()


world = None


class Socket:
    def __init__(self, ctx, kind):
        self.context, self.type, self.closed = ctx, kind, False
        self.turn = 0
        self.reply = None        # REP: (pipe, envelope) of the request being answered
        self.sent = False        # REQ: a request is out
        self.options = {}
        self.log = []            # what the application saw: ("in", frames) and ("out", frames)
        self.dead = False
        self.owner = world.current
        if self.owner and self.owner.killed:
            raise Crash()
        if self.owner:
            self.owner.sockets.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # options
    def setsockopt(self, opt, val):
        self.options[opt] = val
    set = setsockopt
    setsockopt_string = set_string = setsockopt

    def getsockopt(self, opt):
        return self.options.get(opt, 0)
    get = getsockopt

    @property
    def linger(self):
        return self.options.get(REAL.LINGER, -1)

    @linger.setter
    def linger(self, v):
        self.options[REAL.LINGER] = v

    @property
    def pipes(self):
        return [p for p in world.pipes if p.up and self in p.ends]

    def check(self):
        if self.dead:
            raise Crash()
        if self.closed:
            raise REAL.ZMQError(REAL.ENOTSOCK)

    # connections
    def connect(self, url):
        self.check()
        world.connect(_text(url), self)

    def bind(self, url):
        self.check()
        world.bind(_text(url), self)

    def bind_to_random_port(self, addr, min_port=49152, max_port=65536, max_tries=100):
        for _ in range(max_tries):
            world.ports += 1
            try:
                self.bind("%s:%s" % (addr, world.ports))
                return world.ports
            except REAL.ZMQError:
                continue
        raise REAL.ZMQBindError("Could not bind socket to random port.")

    def disconnect(self, url):
        pass
    unbind = disconnect

    def close(self, linger=None):
        if not self.closed:
            self.vanish(lose=False)
            self.closed = True

    def vanish(self, lose=True):
        self.dead = lose
        for p in self.pipes:
            o = p.other(self)
            # what was already sent may still arrive
            p.inbox[o].extend(p.flight[o])
            p.flight[o].clear()
            p.up = False
            o.gone(p)
        world.waiting = [w for w in world.waiting if w[1] is not self]
        world.bound = {u: s for u, s in world.bound.items() if s is not self}

    def gone(self, p):
        if self.reply and self.reply[0] is p:
            self.reply = (None, self.reply[1])

    # messages
    def incoming(self):
        return [p for p in world.pipes if self in p.ends and p.inbox[self]]

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        frames = [_bytes(f) for f in msg_parts]
        self._send(frames, flags)

    def send(self, data, flags=0, copy=True, track=False, **kw):
        flags = 0 if flags is None else flags
        if flags & REAL.SNDMORE:
            self.check()
            self.__dict__.setdefault("more", []).append(_bytes(data))
            return
        more = self.__dict__.pop("more", [])
        self._send(more + [_bytes(data)], flags)

    def recv_multipart(self, flags=0, copy=True, track=False):
        fr = self._recv(flags)
        return fr if copy else [REAL.Frame(f) for f in fr]

    def recv(self, flags=0, copy=True, track=False):
        rest = self.__dict__.get("rest")
        if not rest:
            rest = self.__dict__["rest"] = self._recv(flags)
        f = rest.pop(0)
        self.options[REAL.RCVMORE] = int(bool(rest))
        return f if copy else REAL.Frame(f)

    @property
    def rcvmore(self):
        return bool(self.options.get(REAL.RCVMORE))

    def _send(self, frames, flags):
        _int(flags)
        self.check()
        world.yield_()
        self.check()
        if self.type == REAL.REP:
            if self.reply is None:
                raise REAL.ZMQError(REAL.EFSM)
            p, env = self.reply
            self.reply = None
            self.log.append(("out", frames))
            if p is not None and p.up:
                p.flight[p.other(self)].append(env + frames)
            return
        if self.type in (REAL.DEALER, REAL.PUSH, REAL.REQ):
            if self.type == REAL.REQ:
                if self.sent:
                    raise REAL.ZMQError(REAL.EFSM)
                self.sent = True
                frames = [b""] + frames
            if not self.pipes:
                if flags & REAL.NOBLOCK:
                    raise REAL.Again()
                world.yield_(lambda: bool(self.pipes))
                self.check()
            ps = self.pipes
            p = ps[self.turn % len(ps)]
            self.turn += 1
            self.log.append(("out", frames))
            p.flight[p.other(self)].append(frames)
            return
        raise harness.HarnessError("send on socket type %d" % self.type)

    def _recv(self, flags):
        _int(flags)
        self.check()
        world.yield_()
        self.check()
        if self.type == REAL.REP and self.reply is not None:
            raise REAL.ZMQError(REAL.EFSM)
        if self.type == REAL.REQ and not self.sent:
            raise REAL.ZMQError(REAL.EFSM)
        while True:
            if not self.incoming():
                if flags & REAL.NOBLOCK:
                    raise REAL.Again()
                if self.options.get(REAL.RCVTIMEO, -1) not in (-1, 0) and world.chance(.3):
                    raise REAL.Again()
                world.yield_(lambda: bool(self.incoming()))
                self.check()
                continue
            ps = self.incoming()
            p = ps[world.pick(len(ps))]
            frames = p.inbox[self].popleft()
            if self.type == REAL.REP:
                if b"" not in frames:
                    continue               # no envelope: dropped by ZeroMQ
                k = frames.index(b"") + 1
                if k == len(frames):
                    continue
                self.reply = (p if p.up else None, frames[:k])
                frames = frames[k:]
            if self.type == REAL.REQ:
                self.sent = False
                frames = frames[1:]
            self.log.append(("in", frames))
            return list(frames)

    def poll(self, timeout=None, flags=1):
        self.check()
        world.yield_()
        if flags & REAL.POLLIN and not self.incoming():
            if timeout is None or timeout < 0:
                world.yield_(lambda: bool(self.incoming()))
                return REAL.POLLIN
            for _ in range(3):
                world.yield_()
        return (REAL.POLLIN if self.incoming() else 0) & flags | (REAL.POLLOUT & flags)


class Poller:
    def __init__(self):
        self.sockets = []

    def register(self, socket, flags=REAL.POLLIN | REAL.POLLOUT):
        self.sockets.append((socket, flags))

    def unregister(self, socket):
        self.sockets = [s for s in self.sockets if s[0] is not socket]

    def poll(self, timeout=None):
        world.yield_()
        have = lambda: [(s, REAL.POLLIN) for s, f in self.sockets if f & REAL.POLLIN and s.incoming()]
        if not have():
            if timeout is None or timeout < 0:
                world.yield_(lambda: bool(have()))
            else:
                for _ in range(3):
                    world.yield_()
        return have()


class Context:
    _one = None

    def __init__(self, *a, **k):
        self.closed = False

    @classmethod
    def instance(cls, *a, **k):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def socket(self, kind, *a, **k):
        return Socket(self, kind)

    def setsockopt(self, *a):
        pass

    def term(self):
        self.closed = True

    def destroy(self, linger=None):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _text(u):
    return u.decode() if isinstance(u, bytes) else str(u)


def _bytes(f):
    if isinstance(f, str):
        raise TypeError("str objects not allowed")
    if isinstance(f, (bytes, bytearray, memoryview)):
        return bytes(f)
    if hasattr(f, "bytes"):
        return f.bytes
    raise TypeError("%r does not provide a buffer" % type(f))


def _int(flags):
    if not isinstance(flags, int):
        raise TypeError("an integer is required")


def module():
    """what the library gets when it imports zmq"""
    m = types.ModuleType("zmq")
    m.__dict__.update({k: v for k, v in vars(REAL).items() if not k.startswith("__")})
    m.Context, m.Socket, m.Poller = Context, Socket, Poller
    m.__path__ = []
    return m


def install():
    m = module()
    sys.modules["zmq"] = m
    return m
