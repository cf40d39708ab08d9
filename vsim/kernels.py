"""Builds QAMpy's pythran kernels from /repo's current sources, outside /repo.

variant "sim":   compiled with OpenMP and ThreadSanitizer instrumentation, linked against the
                 deterministic runtime (ompsim) instead of libgomp/libtsan.
variant "plain": the kernels as shipped, single-threaded.  The extension already built in /repo is
                 used when it carries the hash of the current source, otherwise it is rebuilt.
"""
import ctypes
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VSIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CACHE = os.environ.get("VSIM_CACHE", os.path.join(ROOT, ".cache"))
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
VENV_BIN = os.path.dirname(sys.executable)


class BuildError(Exception):
    pass


def kernel_sources():
    """full module name -> source path of every module with pythran exports"""
    out = {}
    top = os.path.join(REPO, "qampy")
    for d, subs, files in os.walk(top):
        subs[:] = sorted(s for s in subs if s != "__pycache__" and s != "test")
        for f in sorted(files):
            if f.endswith(".py"):
                path = os.path.join(d, f)
                with open(path, "rb") as fp:
                    if b"#pythran export" in fp.read():
                        out[os.path.relpath(path, REPO)[:-3].replace(os.sep, ".")] = path
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PATH=VENV_BIN + ":" + os.environ.get("PATH", "")))
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd)[:200], r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode()


def _cflags():
    out = _run([os.path.join(VENV_BIN, "pythran-config"), "--cflags"], "/")
    return out.split()


FLAGS = {
    "sim": ["-O1", "-fopenmp", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1"],
}


def _install(tmp, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    fd, t = tempfile.mkstemp(dir=os.path.dirname(dst))
    os.close(fd)
    shutil.copy(tmp, t)
    os.chmod(t, 0o755)
    os.replace(t, dst)


def build_runtime():
    src = os.path.join(HERE, "ompsim", "rt.cpp")
    with open(src, "rb") as fp:
        key = _sha(fp.read())[:16]
    dst = os.path.join(CACHE, "rt-" + key, "libompsim.so")
    if not os.path.exists(dst):
        with tempfile.TemporaryDirectory() as td:
            _run(["g++", "-std=c++17", "-O2", "-w", "-fPIC", "-shared", "-o", "libompsim.so", src], td)
            _install(os.path.join(td, "libompsim.so"), dst)
    return dst


def _build_one(mod, src, variant):
    with open(src, "rb") as fp:
        code = fp.read()
    sha = hashlib.sha256(code).hexdigest()
    name = mod.rsplit(".", 1)[1]
    if variant == "plain":
        so = src[:-3] + SUFFIX
        if os.path.exists(so):
            with open(so, "rb") as fp:
                if sha.encode() in fp.read():
                    return so
    key = _sha(code, FLAGS[variant], "v4")[:16]
    dst = os.path.join(CACHE, variant + "-" + key, name + SUFFIX)
    if os.path.exists(dst):
        return dst
    with tempfile.TemporaryDirectory() as td:
        shutil.copy(src, os.path.join(td, name + ".py"))
        _run([os.path.join(VENV_BIN, "pythran"), "-E", name + ".py", "-o", name + ".cpp"], td)
        _run(["g++", "-std=c++17"] + _cflags() + FLAGS[variant] + ["-w", "-fPIC", "-fvisibility=hidden", "-DNDEBUG",
             "-fwrapv", "-c", name + ".cpp", "-o", name + ".o"], td)
        # linked without -fsanitize=thread / -fopenmp: the runtime is ours
        wrap = ["-Wl,--wrap=" + f for f in ("malloc", "free", "calloc", "realloc")] if variant == "sim" else []
        _run(["g++", "-shared", "-o", "out.so", name + ".o"] + wrap, td)
        _install(os.path.join(td, "out.so"), dst)
    return dst


def build(variant):
    srcs = kernel_sources()
    if not srcs:
        raise BuildError("no pythran kernels found in " + REPO)
    with ThreadPoolExecutor(8) as ex:
        futs = {m: ex.submit(_build_one, m, s, variant) for m, s in srcs.items()}
        rt = ex.submit(build_runtime) if variant == "sim" else None
        out = {m: f.result() for m, f in futs.items()}
        if rt:
            out["__rt__"] = rt.result()
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, fullname, path=None, target=None):
        p = self.mods.get(fullname)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, p)
        return importlib.util.spec_from_file_location(fullname, p, loader=loader)


_rt = None


def install(mods):
    """Make `import qampy...` use these kernels; call before importing qampy."""
    global _rt
    assert not any(m == "qampy" or m.startswith("qampy.") for m in sys.modules), "qampy imported too early"
    mods = dict(mods)
    rt = mods.pop("__rt__", None)
    if rt:
        _rt = ctypes.CDLL(rt, mode=ctypes.RTLD_GLOBAL)
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(mods))
    from vsim import mem
    mem.use()


def runtime():
    return _rt
