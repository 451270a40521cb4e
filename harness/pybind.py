"""The compiled module of pyfes, built from src/python/core (on the stand-in of
pybind11), the package of src/python/pyfes loaded on it, and the library called
directly (pyref.cpp)."""
import atexit
import ctypes
import importlib
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile
import types
import urllib.error
import urllib.request

import numpy

PATH = os.environ["VP_LIB"]
REPO = os.environ.get("VP_REPO", "/repo")
ROOT = tempfile.mkdtemp(prefix="vp-pyfes-")
atexit.register(shutil.rmtree, ROOT, True)


def _no_network(*a, **k):
    raise urllib.error.URLError("no network")


urllib.request.OpenerDirector.open = _no_network


def load():
    """(pyfes.core, pyfes): sources are copied, as the package may write its
    table of leap seconds next to them."""
    source = os.path.join(REPO, "src", "python", "pyfes")
    package = os.path.join(ROOT, "pyfes")
    shutil.copytree(source, package, ignore=shutil.ignore_patterns("__pycache__", "core"))
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    sys.modules["netCDF4"] = types.ModuleType("netCDF4")
    version = os.path.join(package, "version.py")
    if not os.path.exists(version):  # written by setup.py
        with open(version, "w") as f:
            f.write('__version__ = "0"\n')
    loader = importlib.machinery.ExtensionFileLoader("pyfes.core", PATH)
    spec = importlib.machinery.ModuleSpec("pyfes.core", loader, origin=PATH)
    core = importlib.util.module_from_spec(spec)
    sys.modules["pyfes.core"] = core
    loader.exec_module(core)
    pyfes = importlib.import_module("pyfes")
    assert pyfes.__file__.startswith(ROOT) and pyfes.core is core
    return core, pyfes


CORE, PYFES = load()
LIB = ctypes.CDLL(PATH)
PYLIB = ctypes.PyDLL(PATH)
for _f in ("vp_error", "vp_known"):
    getattr(LIB, _f).restype = ctypes.c_char_p
LIB.vr_axis_index.restype = ctypes.c_long
FORMULAE = [CORE.Formulae.kSchuremanOrder1, CORE.Formulae.kSchuremanOrder3, CORE.Formulae.kMeeus]
KNOWN = LIB.vp_known().decode().split()


class Refused(Exception):
    """The library refuses: code 1 for an invalid argument, 2 otherwise"""


def ref(name, *args):
    """Calls a function of pyref.cpp; a status other than 0 is raised."""
    out = []
    for a in args:
        if isinstance(a, (bool, numpy.bool_)):
            a = ctypes.c_int(int(a))
        elif isinstance(a, (float, numpy.floating)):
            a = ctypes.c_double(float(a))
        elif isinstance(a, numpy.ndarray):
            assert a.flags.c_contiguous
            a = a.ctypes.data_as(ctypes.c_void_p)
        elif isinstance(a, (int, numpy.integer)):
            a = ctypes.c_int(int(a))
        elif isinstance(a, str):
            a = a.encode()
        elif hasattr(a, "p"):
            a = a.p
        out.append(a)
    return getattr(LIB, name)(*out)


def must(name, *args):
    r = ref(name, *args)
    if r:
        raise Refused(r, LIB.vp_error().decode())


def equilibrium(table, f, epoch, leap, lat):
    """(status, tide) of the long period equilibrium"""
    o = ctypes.c_double()
    return ref("vr_lpe", table, f, float(epoch), int(leap), float(lat), ctypes.byref(o)), o.value


class Handle:
    def __init__(self, free):
        self.p, self.free = ctypes.c_void_p(), free

    def out(self):
        return ctypes.byref(self.p)

    def __del__(self):
        if self.p:
            getattr(LIB, self.free)(self.p)


class RTable(Handle):
    def __init__(self, names):
        super().__init__("vr_free_table")
        arr = (ctypes.c_char_p * max(1, len(names)))(*[n.encode() for n in names])
        must("vr_table", arr, len(names), self.out())

    def state(self):
        o = numpy.zeros((99, 12))
        return o[:ref("vr_table_state", self, o)]


class RAxis(Handle):
    def __init__(self, points, eps=1e-6, circular=False):
        super().__init__("vp_free_axis")
        p = numpy.ascontiguousarray(points, dtype="f8")
        must("vp_axis", p, len(p), float(eps), circular, self.out())


class RModel(Handle):
    def __init__(self):
        super().__init__("vp_free_model")


class RIndex(Handle):
    def __init__(self, lon, lat, tri):
        super().__init__("vp_free_index")
        lon, lat, tri = (numpy.ascontiguousarray(x, dtype=t) for x, t in ((lon, "f8"), (lat, "f8"), (tri, "i4")))
        must("vp_index", lon, len(lon), lat, len(lat), tri, len(tri), self.out())


def btable(wt):
    """The waves of a table of the bindings, as RTable.state()"""
    return numpy.array([bwave(w) for w in wt], dtype="f8").reshape(-1, 12)


def bwave(w):
    return [int(w.ident), int(w.type), w.freq, w.f, w.u, w.v(), w.vu(), w.tide.real, w.tide.imag, float(w.admittance), float(w.dynamic), w.period()]


def same(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    return a.shape == b.shape and bool(numpy.all((a == b) | ((a != a) & (b != b))))


def epochs(dates):
    """Seconds since 1970 of datetime64 values"""
    return numpy.array([int(d.astype("M8[us]").astype("i8")) / 1e6 for d in dates], dtype="f8")
