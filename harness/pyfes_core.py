"""Stand-ins for what cannot be built or is not installed here: the compiled
module of pyfes and netCDF4. The classes of the first hold the real models of
the library (c27lib.cpp), with the arguments and conversions of the bindings in
src/python/core; the datasets of the second are read from pickled files."""
import ctypes
import enum
import os
import pickle
import sys
import types

import numpy

LIB = ctypes.CDLL(os.environ["VP_LIB"])
for _f in ("vp_error", "vp_known"):
    getattr(LIB, _f).restype = ctypes.c_char_p


def _call(f, *args):
    r = f(*args)
    if r:
        text = LIB.vp_error().decode()
        raise (ValueError if r == 1 else RuntimeError)(text)


def _doubles(x, what):
    a = numpy.asarray(x)
    if a.dtype.kind not in "fiub":
        raise TypeError(f"incompatible argument {what}: {x!r}")
    if a.ndim == 2 and 1 in a.shape:
        a = a.ravel()
    if a.ndim != 1:
        raise TypeError(f"incompatible argument {what}: {a.shape!r}")
    return numpy.ascontiguousarray(a, dtype="float64")


def _number(x, what):
    if isinstance(x, bool) or isinstance(x, (int, float, numpy.floating, numpy.integer)):
        return float(x)
    raise TypeError(f"incompatible argument {what}: {x!r}")


def _ints(x, cols, what):
    a = numpy.asarray(x)
    if a.dtype.kind not in "fiub" or a.ndim != 2 or a.shape[1] != cols:
        raise TypeError(f"incompatible argument {what}")
    return numpy.ascontiguousarray(a, dtype="int32")


def _p(a, t):
    return a.ctypes.data_as(ctypes.POINTER(t))


KNOWN = LIB.vp_known().decode().split()


def parse(name):
    if not isinstance(name, str):
        raise TypeError(f"incompatible argument name: {name!r}")
    i = ctypes.c_int()
    _call(LIB.vp_parse, name.encode(), ctypes.byref(i))
    return Constituent(i.value)


def name(constituent):
    s = ctypes.c_char_p()
    _call(LIB.vp_name, int(constituent), ctypes.byref(s))
    return s.value.decode()


def known():
    return list(KNOWN)


def _raw(s):
    i = ctypes.c_int()
    _call(LIB.vp_parse, s.encode(), ctypes.byref(i))
    return i.value


Constituent = enum.IntEnum("Constituent", [("k" + s, _raw(s)) for s in KNOWN])


class TideType(enum.IntEnum):
    kTide = 1
    kRadial = 2


class Axis:
    def __init__(self, points, epsilon=1e-6, is_circular=False):
        p = _doubles(points, "points")
        self.n = len(p)
        self.p = ctypes.c_void_p()
        _call(LIB.vp_axis, _p(p, ctypes.c_double), len(p), ctypes.c_double(_number(epsilon, "epsilon")), int(bool(is_circular)), ctypes.byref(self.p))

    def __len__(self):
        return self.n

    @property
    def is_circular(self):
        return bool(LIB.vp_axis_circular(self.p))

    def __del__(self):
        if self.p:
            LIB.vp_free_axis(self.p)


class Index:
    def __init__(self, lon, lat, triangles):
        lon, lat, t = _doubles(lon, "lon"), _doubles(lat, "lat"), _ints(triangles, 3, "triangles")
        self.p = ctypes.c_void_p()
        _call(LIB.vp_index, _p(lon, ctypes.c_double), len(lon), _p(lat, ctypes.c_double), len(lat), _p(t, ctypes.c_int), len(t), ctypes.byref(self.p))

    def __del__(self):
        if self.p:
            LIB.vp_free_index(self.p)


class _Model:
    bits = 0
    p = None

    def add_constituent(self, name, wave):
        if not isinstance(name, str):
            raise TypeError(f"incompatible argument name: {name!r}")
        w = numpy.asarray(wave)
        if w.dtype.kind not in "cfiub" or w.ndim != 1 and not (w.ndim == 2 and w.shape[1] == 1):
            raise TypeError("incompatible argument wave")
        w = numpy.ascontiguousarray(w.ravel(), dtype="complex128")
        if self.bits == 64:
            w = w.astype("complex64").astype("complex128")
        _call(LIB.vp_add, self.p, name.encode(), w.ctypes.data_as(ctypes.c_void_p), len(w))

    @property
    def dynamic(self):
        ids = (ctypes.c_int * 99)()
        n = LIB.vp_dynamic(self.p, ids)
        return [Constituent(ids[i]) for i in range(n)]

    @dynamic.setter
    def dynamic(self, values):
        values = [v for v in values]
        if not all(isinstance(v, Constituent) for v in values):
            raise TypeError("incompatible argument dynamic")
        LIB.vp_set_dynamic(self.p, (ctypes.c_int * max(1, len(values)))(*[int(v) for v in values]), len(values))

    @property
    def tide_type(self):
        return TideType(LIB.vp_tide_type(self.p))

    def identifiers(self):
        ids = (ctypes.c_int * 99)()
        n = LIB.vp_identifiers(self.p, ids)
        return [Constituent(ids[i]) for i in range(n)]

    def __len__(self):
        return len(self.identifiers())

    def __bool__(self):
        return bool(self.identifiers())

    def interpolate(self, lon, lat, num_threads=0):
        lon, lat = _doubles(lon, "lon"), _doubles(lat, "lat")
        ids = self.identifiers()
        v = numpy.full((len(ids), len(lon)), numpy.nan, dtype="complex128")
        q = (ctypes.c_int * len(lon))()
        _call(LIB.vp_interpolate, self.p, _p(lon, ctypes.c_double), _p(lat, ctypes.c_double), len(lon), v.ctypes.data_as(ctypes.c_void_p), q)
        return {i: v[k] for k, i in enumerate(ids)}, numpy.array(q[:], dtype="int8")

    def __del__(self):
        if self.p:
            LIB.vp_free_model(self.p)


class AbstractTidalModelComplex64(_Model):
    bits = 64


class AbstractTidalModelComplex128(_Model):
    bits = 128


def _tide(t):
    if not isinstance(t, TideType):
        raise TypeError(f"incompatible argument tide_type: {t!r}")
    return int(t)


def _cartesian(base, bits):
    class C(base):
        kind = "cartesian"

        def __init__(self, lon, lat, tide_type=TideType.kTide, longitude_major=True):
            if not isinstance(lon, Axis) or not isinstance(lat, Axis) or not isinstance(longitude_major, (bool, numpy.bool_)):
                raise TypeError("incompatible arguments")
            self._lon, self._lat = lon, lat
            self.p = ctypes.c_void_p()
            _call(LIB.vp_cartesian, bits, lon.p, lat.p, _tide(tide_type), int(longitude_major), ctypes.byref(self.p))

        def lon(self):
            return self._lon

        def lat(self):
            return self._lat
    C.__name__ = "CartesianComplex%d" % bits
    return C


def _lgp(base, bits, order):
    class L(base):
        kind = "lgp%d" % order

        def __init__(self, index, codes, tide_type=TideType.kTide, max_distance=0):
            if not isinstance(index, Index):
                raise TypeError("incompatible arguments")
            c = _ints(codes, 3 * order, "codes")
            self._index = index
            self.p = ctypes.c_void_p()
            _call(LIB.vp_lgp, bits, order, index.p, _p(c, ctypes.c_int), len(c), _tide(tide_type), ctypes.c_double(_number(max_distance, "max_distance")), ctypes.byref(self.p))

        def index(self):
            return self._index
    L.__name__ = "LGP%dComplex%d" % (order, bits)
    return L


def install(package):
    """The modules pyfes.core... and netCDF4."""
    core = types.ModuleType(package + ".core")
    core.__path__ = []
    for n in ("Axis", "Constituent", "TideType", "AbstractTidalModelComplex64", "AbstractTidalModelComplex128"):
        setattr(core, n, globals()[n])
    for e in (Constituent, TideType):
        for m in e:
            setattr(core, m.name, m)
    for sub, members in (("constituents", dict(parse=parse, name=name, known=known)), ("mesh", dict(Index=Index)), ("tidal_model", {})):
        m = types.ModuleType(package + ".core." + sub)
        m.__dict__.update(members)
        setattr(core, sub, m)
        sys.modules[m.__name__] = m
    for bits, base in ((64, AbstractTidalModelComplex64), (128, AbstractTidalModelComplex128)):
        for c in (_cartesian(base, bits), _lgp(base, bits, 1), _lgp(base, bits, 2)):
            setattr(core.tidal_model, c.__name__, c)
    sys.modules[core.__name__] = core
    nc = types.ModuleType("netCDF4")
    nc.Dataset, nc.Variable = Dataset, Variable
    sys.modules["netCDF4"] = nc
    return core


# ------------------------------------------------------------------ netCDF4
class Variable:
    def __init__(self, name, d):
        self.name, self._d = name, d
        self.dimensions = tuple(d["dims"])
        self.dtype = d["data"].dtype
        self.shape = d["data"].shape
        self.ndim = d["data"].ndim
        self.size = d["data"].size
        self._auto = True

    def ncattrs(self):
        return list(self._d["attrs"])

    def getncattr(self, k, encoding="utf-8"):
        try:
            return self._d["attrs"][k]
        except KeyError:
            raise AttributeError("NetCDF: Attribute not found") from None

    def __getattr__(self, k):
        if k.startswith("__") or k == "_d":
            raise AttributeError(k)
        if k in self._d["attrs"]:
            return self._d["attrs"][k]
        raise AttributeError("NetCDF: Attribute not found")

    def set_auto_mask(self, on):
        self._auto = bool(on)

    set_auto_maskandscale = set_auto_mask

    def set_always_mask(self, on):
        pass

    set_auto_scale = set_always_mask

    def __len__(self):
        return self.shape[0]

    def __array__(self, dtype=None, copy=None):
        return numpy.array(self[...], dtype=dtype)

    def __getitem__(self, k):
        data = self._d["data"].copy()
        if not self._auto:
            return numpy.ma.getdata(data)[k]
        if self._d.get("always_mask", True) or numpy.ma.getmaskarray(data).any():
            return numpy.ma.asarray(data)[k]
        return numpy.ma.getdata(data)[k]


class Dimension:
    def __init__(self, name, size):
        self.name, self.size = name, size

    def __len__(self):
        return self.size

    def isunlimited(self):
        return False


class Dataset:
    opened = 0

    def __init__(self, filename, mode="r", **kwargs):
        if mode not in ("r", "rb"):
            raise PermissionError("the files of a model are only read")
        try:
            with open(filename, "rb") as f:
                content = pickle.load(f)
        except OSError:
            raise
        except Exception:
            raise OSError(-51, "NetCDF: Unknown file format", str(filename)) from None
        self.variables = {k: Variable(k, v) for k, v in content.items()}
        self.dimensions = {d: Dimension(d, n) for v in self.variables.values() for d, n in zip(v.dimensions, v.shape)}
        self._open = True
        Dataset.opened += 1

    def __getitem__(self, k):
        if k not in self.variables:
            raise IndexError(f"{k} not found in /")
        return self.variables[k]

    def set_auto_mask(self, on):
        for v in self.variables.values():
            v.set_auto_mask(on)

    set_auto_maskandscale = set_auto_mask

    def set_always_mask(self, on):
        pass

    set_auto_scale = set_always_mask

    def ncattrs(self):
        return []

    def filepath(self):
        return ""

    def isopen(self):
        return self._open

    def close(self):
        if self._open:
            self._open = False
            Dataset.opened -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
