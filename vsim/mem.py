"""Array memory as a seam: placement does not depend on the operating system, requests can be made to fail."""
import importlib.machinery
import importlib.util
import os
import sys
import sysconfig
import tempfile

from vsim import kernels

HERE = os.path.dirname(os.path.abspath(__file__))
_mod = None


def build():
    import numpy
    src = os.path.join(HERE, "memsim", "mem.c")
    with open(src, "rb") as fp:
        key = kernels._sha(fp.read(), numpy.__version__, sys.version)[:16]
    dst = os.path.join(kernels.CACHE, "mem-" + key, "vsim_mem" + kernels.SUFFIX)
    if not os.path.exists(dst):
        with tempfile.TemporaryDirectory() as td:
            out = os.path.join(td, os.path.basename(dst))
            kernels._run(["gcc", "-O2", "-w", "-fPIC", "-shared", "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-o", out, src], td)
            kernels._install(out, dst)
    return dst


def module():
    global _mod
    if _mod is None:
        path = build()
        loader = importlib.machinery.ExtensionFileLoader("vsim_mem", path)
        spec = importlib.util.spec_from_file_location("vsim_mem", path, loader=loader)
        _mod = importlib.util.module_from_spec(spec)
        loader.exec_module(_mod)
    return _mod


def use():
    """for arrays made by this thread from now on (NumPy keeps the choice per thread)"""
    module().install()
