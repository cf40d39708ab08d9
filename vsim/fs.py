"""Simulated disk: the real file system calls of one directory, numbered, logged and faulted by the
LD_PRELOAD seam in fssim/, and a model of what a crash leaves behind."""
import ctypes
import errno
import os
import shutil
import signal
import subprocess
import sys
import tempfile

from vsim import kernels
from vsim.harness import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = ["?", "open", "read", "write", "truncate", "fsync", "close", "rename", "unlink", "link", "symlink", "mkdir", "rmdir", "chmod", "lseek", "other"]
OPEN, READ, WRITE, TRUNC, FSYNC, CLOSE, RENAME, UNLINK, LINK, SYMLINK, MKDIR, RMDIR, CHMOD = range(1, 14)
ERR, SHORT, EINTR, SIGINT = 1, 2, 3, 4
KIND = {ERR: "error", SHORT: "short transfer", EINTR: "EINTR", SIGINT: "interrupt signal"}
SECTOR = 512


class Rec(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("err", ctypes.c_int), ("fault", ctypes.c_int), ("flags", ctypes.c_int),
                ("fd", ctypes.c_long), ("ino", ctypes.c_long), ("ino2", ctypes.c_long), ("off", ctypes.c_long), ("len", ctypes.c_long), ("res", ctypes.c_long),
                ("p1", ctypes.c_char_p), ("p2", ctypes.c_char_p), ("data", ctypes.c_void_p)]


def build():
    src = os.path.join(HERE, "fssim", "fsi.c")
    with open(src, "rb") as fp:
        key = kernels._sha(fp.read())[:16]
    dst = os.path.join(kernels.CACHE, "fsi-" + key, "libfsi.so")
    if not os.path.exists(dst):
        with tempfile.TemporaryDirectory() as td:
            kernels._run(["gcc", "-O2", "-w", "-fPIC", "-shared", "-o", "libfsi.so", src, "-ldl"], td)
            kernels._install(os.path.join(td, "libfsi.so"), dst)
    return dst


def ensure_preload():
    """Run this process again with the seam in place, if it is not."""
    lib = build()
    if os.environ.get("LD_PRELOAD") != lib:
        env = dict(os.environ, LD_PRELOAD=lib)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, "-m", "vsim"] + sys.argv[1:], env)


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.fsi_begin
        except AttributeError:
            raise HarnessError("the disk seam is not loaded")
        _lib.fsi_rec.restype = ctypes.POINTER(Rec)
        _lib.fsi_rec.argtypes = [ctypes.c_long]
        _lib.fsi_plan.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _lib.fsi_count.restype = ctypes.c_long
        _lib.fsi_fired.restype = ctypes.c_longlong
        _lib.fsi_begin.argtypes = [ctypes.c_char_p]
    return _lib


class Op:
    """one logged operation"""
    __slots__ = ("op", "err", "fault", "flags", "fd", "ino", "ino2", "off", "len", "res", "p1", "p2", "data")

    def __repr__(self):
        return "%s(%s)" % (OPS[self.op], ", ".join("%s=%s" % (k, getattr(self, k)) for k in ("p1", "p2", "fd", "len", "res", "err", "fault") if getattr(self, k) not in (None, "", -1)))


class Outcome:
    def __init__(self):
        self.kind = None          # "ok", "raised", "interrupted"
        self.value = None
        self.log = []
        self.fired = {}


def run(root, fn, plan=()):
    """fn() with its operations below root logged; plan: (op number, fault kind, argument, sticky, op mask)"""
    L = lib()
    out = Outcome()
    signal.signal(signal.SIGINT, signal.default_int_handler)
    L.fsi_begin(root.encode())
    for p in plan:
        L.fsi_plan(*p)
    try:
        try:
            out.value = fn()
            out.kind = "ok"
        finally:
            L.fsi_end()
    except KeyboardInterrupt as e:
        out.kind, out.value = "interrupted", e
    except Exception as e:
        out.kind, out.value = "raised", e
    L.fsi_end()
    for i in range(L.fsi_count()):
        r = L.fsi_rec(i).contents
        o = Op()
        for k in ("op", "err", "fault", "flags", "fd", "ino", "ino2", "off", "len", "res"):
            setattr(o, k, getattr(r, k))
        o.p1 = os.path.normpath(os.fsdecode(r.p1)) if r.p1 else None
        o.p2 = os.path.normpath(os.fsdecode(r.p2)) if r.p2 else None
        o.data = ctypes.string_at(r.data, r.res) if r.data and r.res > 0 else b""
        out.log.append(o)
    for k in KIND:
        n = L.fsi_fired(k)
        if n:
            out.fired[KIND[k]] = int(n)
    return out


# ------------------------------------------------------------------------------------- directories
def snapshot(root):
    """relative path -> ("f", bytes) | ("l", target) | ("d",)"""
    out = {}
    for d, subs, files in os.walk(root):
        for n in sorted(subs + files):
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("d",)
            else:
                with open(p, "rb") as fp:
                    out[r] = ("f", fp.read())
    return out


def restore(root, snap):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for r in sorted(snap):
        p = os.path.join(root, r)
        e = snap[r]
        if e[0] == "d":
            os.mkdir(p)
        elif e[0] == "l":
            os.symlink(e[1], p)
        else:
            with open(p, "wb") as fp:
                fp.write(e[1])


class _Inode:
    __slots__ = ("data", "durable", "pending")

    def __init__(self, data=b""):
        self.data = bytearray(data)       # what a reader sees now
        self.durable = bytes(data)        # what is known to be on the disk
        self.pending = []                 # unsynced ("w", off, bytes) and ("t", size)


class DiskModel:
    """Replays a log over a settled starting state."""

    def __init__(self, root, snap):
        self.root = root
        self.names = {}
        for r, e in snap.items():
            self.names[r] = _Inode(e[1]) if e[0] == "f" else e
        self.fds = {}
        self.nsops = [dict(self.names)]   # namespace after each metadata operation, in order

    def rel(self, p):
        d, b = os.path.split(p)
        return os.path.relpath(os.path.join(os.path.realpath(d), b), os.path.realpath(self.root))

    def follow(self, p):
        r = self.rel(p)
        for _ in range(8):
            e = self.names.get(r)
            if isinstance(e, tuple) and e[0] == "l":
                r = os.path.normpath(os.path.join(os.path.dirname(r), e[1])) if not os.path.isabs(e[1]) else self.rel(e[1])
            else:
                break
        return r

    def meta(self):
        self.nsops.append(dict(self.names))

    def apply(self, o, part=None):
        """part: only this many bytes of a write happened"""
        if o.op == OPEN:
            if o.res < 0:
                return
            r = self.follow(o.p1)
            ino = self.names.get(r)
            if not isinstance(ino, _Inode):
                if ino is not None:
                    self.fds[o.fd] = None
                    return
                ino = _Inode()
                self.names[r] = ino
                self.meta()
            elif o.flags & os.O_TRUNC and (o.flags & 3) != os.O_RDONLY:
                ino.data = bytearray()
                ino.pending.append(("t", 0))
            self.fds[o.fd] = ino
        elif o.op == WRITE:
            ino = self.fds.get(o.fd)
            if ino is None or o.res <= 0:
                return
            d = o.data if part is None else o.data[:part]
            if not d:
                return
            if len(ino.data) < o.off:
                ino.data.extend(b"\0" * (o.off - len(ino.data)))
            ino.data[o.off:o.off + len(d)] = d
            ino.pending.append(("w", o.off, bytes(d)))
        elif o.op == TRUNC:
            if o.res < 0:
                return
            ino = self.fds.get(o.fd) if o.fd >= 0 else self.names.get(self.follow(o.p1))
            if isinstance(ino, _Inode):
                n = o.len
                if n < len(ino.data):
                    del ino.data[n:]
                else:
                    ino.data.extend(b"\0" * (n - len(ino.data)))
                ino.pending.append(("t", n))
        elif o.op == FSYNC:
            if o.res < 0:
                return
            ino = self.fds.get(o.fd)
            if isinstance(ino, _Inode):
                ino.durable = bytes(ino.data)
                ino.pending = []
        elif o.op == CLOSE:
            self.fds.pop(o.fd, None)
        elif o.res < 0:
            return
        elif o.op == RENAME:
            a, b = self.rel(o.p1), self.rel(o.p2)
            if a in self.names:
                self.names[b] = self.names.pop(a)
                self.meta()
        elif o.op in (UNLINK, RMDIR):
            self.names.pop(self.rel(o.p1), None)
            self.meta()
        elif o.op == LINK:
            self.names[self.rel(o.p2)] = self.names.get(self.rel(o.p1))
            self.meta()
        elif o.op == SYMLINK:
            self.names[self.rel(o.p2)] = ("l", o.p1)
            self.meta()
        elif o.op == MKDIR:
            self.names[self.rel(o.p1)] = ("d",)
            self.meta()

    def visible(self):
        return {r: ("f", bytes(e.data)) if isinstance(e, _Inode) else e for r, e in self.names.items()}

    def after_power_loss(self, rng, res=None):
        """One state the disk can be in: metadata operations reach it in order, data not synced reaches it in any combination of sectors."""
        names = self.nsops[-1 if rng.random() < .6 else rng.randrange(len(self.nsops))]
        done = {}
        out = {}
        for r in sorted(names):
            e = names[r]
            if not isinstance(e, _Inode):
                out[r] = e
                continue
            if id(e) not in done:
                done[id(e)] = self.torn(e, rng)
            out[r] = ("f", done[id(e)])
        return out

    @staticmethod
    def torn(ino, rng):
        cur, size = bytearray(ino.durable), len(ino.durable)
        if not ino.pending:
            return bytes(cur)
        mode = rng.choice(["none", "all", "prefix", "sectors", "sectors", "size only"])
        if mode == "none":
            return bytes(cur)
        ops = ino.pending if mode != "prefix" else ino.pending[:rng.randint(0, len(ino.pending))]
        for p in ops:
            if p[0] == "t":
                size = p[1]
                del cur[size:]
                continue
            off, d = p[1], p[2]
            end = off + len(d)
            if len(cur) < end:
                cur.extend(b"\0" * (end - len(cur)))    # the size is there, the data may not be
            size = max(size, end)
            if mode == "size only":
                continue
            s = off
            while s < end:
                e = min((s // SECTOR + 1) * SECTOR, end)
                if mode in ("all", "prefix") or rng.random() < .6:
                    cur[s:e] = d[s - off:e - off]
                s = e
        return bytes(cur[:max(size, 0)])


def normal(log, root, known):
    """the log without the names, descriptors and inode numbers that differ from run to run"""
    names, out = {}, []

    def nm(p):
        if p is None:
            return None
        r = os.path.relpath(p, root)
        return r if r in known else names.setdefault(r, "new%d" % len(names))
    for o in log:
        out.append((OPS[o.op], nm(o.p1), nm(o.p2), o.len if o.op in (WRITE, TRUNC) else None, 0 if o.op == OPEN and o.res > 0 else o.res if o.op != READ or o.fault else "n", o.err, o.fault))
    return out
