"""C28: the Python interface gives what the library gives. The bindings are the
real ones; every result is compared with the library called directly with the
same values (pyref.cpp)."""
import datetime
import gc
import itertools
import os
import pickle
import sys
import warnings

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpr  # noqa: E402
from pybind import (CORE, FORMULAE, KNOWN, LIB, PYFES, RAxis, Refused, RIndex, RModel, RTable, btable, bwave, epochs, equilibrium, must, ref, same)  # noqa: E402
import ctypes  # noqa: E402

warnings.simplefilter("ignore")
R = vpr.Reporter()
TM = CORE.tidal_model
C = {n: CORE.constituents.parse(n) for n in KNOWN}

# ----------------------------------------------------------- representations


def strided(a):
    b = numpy.zeros(tuple(2 * s for s in a.shape), a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def backwards(a):
    s = tuple(slice(None, None, -1) for _ in a.shape)
    return numpy.ascontiguousarray(a[s])[s]


def unaligned(a):
    raw = numpy.zeros(a.nbytes + 1, "u1")
    v = raw[1:].view(a.dtype).reshape(a.shape)
    v[...] = a
    return v


def readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


class Sub(numpy.ndarray):
    pass


class Arrayable:
    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


COMMON = {
    "same": lambda a: a.copy(),
    "strided": strided,
    "backwards": backwards,
    "readonly": readonly,
    "unaligned": unaligned,
    "swapped": lambda a: a.astype(a.dtype.newbyteorder()),
    "subclass": lambda a: a.copy().view(Sub),
    "list": lambda a: a.tolist(),
    "tuple": lambda a: tuple(a.tolist()),
    "arrayable": lambda a: Arrayable(a.copy()),
    "objects": lambda a: numpy.array(a.tolist(), dtype=object),
}
VECTOR = dict(COMMON, column=lambda a: a.reshape(-1, 1), middle=lambda a: numpy.concatenate([a[:1], a[:1], a, a[:1]])[2:-1])
FLOATS = {"f4": lambda a: a.astype("f4"), "i4": lambda a: a.astype("i4"), "i8": lambda a: a.astype("i8"), "long": lambda a: a.astype("longdouble")}
FLOAT_VECTOR = dict(VECTOR, **FLOATS)
U2_VECTOR = dict(VECTOR, i8=lambda a: a.astype("i8"), f8=lambda a: a.astype("f8"), u1=lambda a: a.astype("u1"), i4=lambda a: a.astype("i4"))
COMPLEX_VECTOR = dict(VECTOR, c8=lambda a: a.astype("c8"), long=lambda a: a.astype("clongdouble"))
MATRIX = dict(COMMON, fortran=lambda a: numpy.asfortranarray(a), transposed=lambda a: numpy.ascontiguousarray(a.T).T,
              rows=lambda a: numpy.repeat(a, 2, axis=0)[::2], columns=lambda a: numpy.repeat(a, 3, axis=1)[:, ::3],
              upside=lambda a: numpy.ascontiguousarray(a[::-1])[::-1], mirrored=lambda a: numpy.asfortranarray(a[:, ::-1])[:, ::-1],
              inside=lambda a: numpy.pad(a, 2)[2:-2, 2:-2])
REVERSED = ("backwards", "upside", "mirrored")
UNITS = ["D", "h", "m", "s", "ms", "us", "ns"]
DATE = {u: (lambda a, u=u: a.astype("M8[%s]" % u)) for u in UNITS}
DATE.update(strided=strided, backwards=backwards, readonly=readonly, subclass=lambda a: a.copy().view(Sub), middle=VECTOR["middle"])

# -------------------------------------------------------------------- values
DAYS = ["2000-01-01", "2004-02-29", "2012-06-30", "2012-07-01", "1999-12-31", "1985-07-01", "2017-01-01", "2024-05-05", "1972-01-01", "2000-01-02"]
LEAP = numpy.array([32, 32, 34, 35, 32, 23, 37, 37, 10, 32], dtype="u2")
DATES = numpy.array(DAYS, dtype="M8[s]")
EPOCH = epochs(DATES)
PLON = numpy.array([0, 5, 359, -30, 12, 19, 370, 25, 180, 7], dtype="f8")
PLAT = numpy.array([0, 5, 10, -55, 3, 19, 20, 70, 0, 11], dtype="f8")
LON = numpy.arange(12) * 30.0
LAT = numpy.arange(7) * 20.0 - 60
VLON = numpy.repeat(numpy.arange(3) * 10.0, 3)
VLAT = numpy.tile(numpy.arange(3) * 10.0, 3)
TRI = numpy.array([t for i in range(2) for j in range(2) for a in [3 * i + j] for t in ((a, a + 3, a + 4), (a, a + 4, a + 1))], dtype="i4")
CODES6 = numpy.arange(len(TRI) * 6, dtype="i4").reshape(-1, 6)
MAIN = ["M2", "S2", "N2", "K2", "O1", "K1", "Q1", "2N2", "Mf"]


def wave(n, k, hole=None):
    i = numpy.arange(n)
    w = ((i * 7 + k * 3) % 11 + 0.5) + 1j * ((i * 5 + k) % 13 - 6)
    if hole is not None:
        w[hole % n] = numpy.nan
    return w


SPECS = [(kind, bits, radial, major) for kind in ("cartesian", "lgp1", "lgp2") for bits in (128, 64) for radial in (False, True)
         for major in ((True, False) if kind == "cartesian" else (True,))]


def size(kind):
    return {"cartesian": len(LON) * len(LAT), "lgp1": 9, "lgp2": CODES6.size}[kind]


def empty_models(spec):
    """The model of the bindings and that of the library, without waves"""
    kind, bits, radial, major = spec
    tide = CORE.kRadial if radial else CORE.kTide
    r = RModel()
    if kind == "cartesian":
        b = getattr(TM, "CartesianComplex%d" % bits)(CORE.Axis(LON, is_circular=True), CORE.Axis(LAT), tide_type=tide, longitude_major=major)
        must("vp_cartesian", bits, RAxis(LON, circular=True), RAxis(LAT), int(tide), major, r.out())
    else:
        order = int(kind[-1])
        codes = TRI if order == 1 else CODES6
        b = getattr(TM, "LGP%dComplex%d" % (order, bits))(CORE.mesh.Index(VLON, VLAT, TRI), codes, tide_type=tide, max_distance=0)
        must("vp_lgp", bits, order, RIndex(VLON, VLAT, TRI), codes, len(codes), int(tide), 0.0, r.out())
    return b, r


def models(spec, names=MAIN, hole=None):
    b, r = empty_models(spec)
    for k, n in enumerate(names):
        w = wave(size(spec[0]), k, hole)
        b.add_constituent(n, w)
        must("vp_add", r, n, w, len(w))
    return b, r


def expected_tide(r, lon=PLON, lat=PLAT, epoch=EPOCH, leap=LEAP, formulae=0, tol=0.0, excluded=(), threads=1):
    n = len(lon)
    t, lp, q = numpy.zeros(n), numpy.zeros(n), numpy.zeros(n, "i4")
    e = numpy.array(list(excluded) + [0], dtype="i4")
    must("vr_evaluate", r, epoch, leap, lon, lat, n, formulae, float(tol), e, len(excluded), threads, t, lp, q)
    return t, lp, q


def expected_interpolation(b, r, lon=PLON, lat=PLAT):
    ids = (ctypes.c_int * 99)()
    n = ref("vp_identifiers", r, ids)
    v = numpy.full((n, len(lon)), numpy.nan, dtype="c16")
    q = numpy.zeros(len(lon), "i4")
    must("vp_interpolate", r, lon, lat, len(lon), v, q)
    return {ids[i]: v[i] for i in range(n)}, q


def near(a, b):
    """The same, but for the rounding of a date (1e-7 s)"""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    with numpy.errstate(all="ignore"):
        return bool(numpy.all((a == b) | ((a != a) & (b != b)) | (abs(a - b) <= 1e-8 * (1 + abs(b)))))


def check_tide(key, what, got, want):
    R.transition()
    if not isinstance(got, tuple) or len(got) != 3:
        R.fail(key, "%s: %r" % (what, got))
        return
    for name, g, w in zip(("tide", "long period", "quality"), got, want):
        if not isinstance(g, numpy.ndarray) or g.ndim != 1 or not near(g, w):
            R.fail(key, "%s: %s is %r instead of %r" % (what, name, g, w))
            return


def attempt(key, what, f, may_refuse=False):
    """The result of f, or None once reported"""
    try:
        return f()
    except TypeError as e:
        # arrays of references to matrices cannot be read backwards
        if not may_refuse:
            R.fail(key, "%s: %s: %s" % (what, type(e).__name__, e))
        return None
    except Exception as e:  # noqa: BLE001
        R.fail(key, "%s: %s: %s" % (what, type(e).__name__, e))
        return None


# ---------------------------------------------------------------------- tide
def settings_list():
    e = [C["M2"], C["Mf"]]
    return [
        ("omitted", lambda: Ellipsis, {}),
        ("None", lambda: None, {}),
        ("core", lambda: CORE.Settings(), {}),
        ("meeus", lambda: CORE.Settings(CORE.kMeeus), dict(formulae=2)),
        ("order3", lambda: CORE.Settings(astronomic_formulae=CORE.kSchuremanOrder3, excluded=e), dict(formulae=1, excluded=[int(x) for x in e])),
        ("positional", lambda: CORE.Settings(CORE.kSchuremanOrder3, 3600, [C["S2"]]), dict(formulae=1, tol=3600, excluded=[int(C["S2"])])),
        ("pyfes", lambda: PYFES.Settings(), {}),
        ("pyfes all", lambda: PYFES.Settings(astronomic_formulae=PYFES.Formulae.kMeeus, time_tolerance=86400.0 * 400, excluded=["m2", "MF"]),
         dict(formulae=2, tol=86400.0 * 400, excluded=[int(x) for x in e])),
    ]


def calls(b, date, leap, lon, lat, s, threads):
    """The ways of asking for the same tide"""
    kw = dict(num_threads=threads)
    pos = (s, threads)
    if s is Ellipsis:
        pos = ()
    else:
        kw["settings"] = s
    yield "pyfes", lambda: PYFES.evaluate_tide(b, date, lon, lat, **kw)
    yield "core", lambda: CORE.evaluate_tide(b, date, leap, lon, lat, *pos)
    yield "keywords", lambda: CORE.evaluate_tide(latitude=lat, longitude=lon, leap_seconds=leap, date=date, tidal_model=b, **kw)


def tide():
    for spec in SPECS:
        for dyn in (0, 1):
            for sname, s, kw in settings_list():
                if not R.begin("tide"):
                    continue
                b, r = models(spec, hole=None if dyn else 4)
                if dyn:
                    b.dynamic = [C["Mm"], C["Q1"]]
                    must("vp_set_dynamic", r, numpy.array([int(C["Mm"]), int(C["Q1"])], dtype="i4"), 2)
                for threads in (0, 1, 2, 3, 16):
                    for entry, f in calls(b, DATES, LEAP, PLON, PLAT, s(), threads):
                        if entry == "core" and sname == "omitted" and threads != 0:
                            continue
                        what = "%s, %s, dynamic %d, settings %s, %d threads, %s" % (spec, "defined" if dyn else "with a hole", dyn, sname, threads, entry)
                        got = attempt("tide:refused", what, f)
                        if got is not None:
                            check_tide("tide:" + entry, what, got, expected_tide(r, threads=threads, **kw))
                        R.state("tide", spec, dyn, sname, threads, entry)
                R.trace()
                if sname == "omitted":
                    R.sample("tide of %s: %r" % (spec, expected_tide(r)[0][:3].tolist()))


def layouts():
    """Every way of giving the arrays"""
    base = dict(date=DATES, leap=LEAP, lon=PLON, lat=PLAT)
    reps = dict(date=DATE, leap=U2_VECTOR, lon=FLOAT_VECTOR, lat=FLOAT_VECTOR)
    todo = [(a, ra, None, None) for a in reps for ra in reps[a]]
    todo += [(a, ra, b, rb) for a, b in itertools.combinations(reps, 2) for ra in reps[a] for rb in reps[b]]
    specs = SPECS if R.thorough else [SPECS[0], SPECS[5], SPECS[-2]]
    for spec in specs:
        b = None
        for a, ra, c, rc in todo:
            if not R.begin("layouts"):
                continue
            if b is None:
                b, r = models(spec)
                want = expected_tide(r)
            args = {k: v.copy() for k, v in base.items()}
            args[a] = reps[a][ra](base[a])
            if c:
                args[c] = reps[c][rc](base[c])
            for entry, f in calls(b, args["date"], args["leap"], args["lon"], args["lat"], None, 1):
                what = "%s: %s %s, %s %s, %s" % (spec, a, ra, c, rc, entry)
                got = attempt("layouts:refused", what, f)
                if got is not None:
                    check_tide("layouts:" + a, what, got, want)
            R.state("layouts", spec, a, ra, c, rc)
            R.trace()


# -------------------------------------------------------------------- models
def full(b):
    """What can be seen of a model"""
    v, q = b.interpolate(PLON, PLAT, 1)
    return ({int(k): x for k, x in v.items()}, q, [int(i) for i in b.identifiers()], len(b), bool(b), int(b.tide_type), [int(i) for i in b.dynamic])


def rfull(b, r):
    v, q = expected_interpolation(b, r)
    ids = (ctypes.c_int * 99)()
    dyn = [ids[i] for i in range(ref("vp_dynamic", r, ids))]
    idents = [ids[i] for i in range(ref("vp_identifiers", r, ids))]
    return v, q, idents, len(idents), bool(idents), ref("vp_tide_type", r), dyn


def same_full(a, b):
    return (a[2:] == b[2:] and a[0].keys() == b[0].keys() and all(same(a[0][k], b[0][k]) for k in a[0]) and same(a[1], b[1]))


def interpolations():
    for spec in SPECS:
        for rep in FLOAT_VECTOR:
            if not R.begin("interpolations"):
                continue
            for hole in (None, 4):
                b, r = models(spec, hole=hole)
                want, wq = expected_interpolation(b, r)
                x, y = FLOAT_VECTOR[rep](PLON), FLOAT_VECTOR[rep](PLAT)
                ways = [("1", lambda: b.interpolate(x, PLAT, 1)), ("2", lambda: b.interpolate(PLON, y)), ("3", lambda: b.interpolate(lat=y, lon=x, num_threads=3)),
                        ("16", lambda: b.interpolate(x, y, num_threads=16)), ("0", lambda: b.interpolate(x, y, 0))]
                for wname, f in ways:
                    what = "%s, %s, way %s" % (spec, rep, wname)
                    got = attempt("interpolations:refused", what, f)
                    R.transition()
                    R.state("interpolations", spec, rep, hole, wname)
                    if got is None:
                        continue
                    v, q = got
                    if not same(q, wq) or {int(k) for k in v} != set(want):
                        R.fail("interpolations:quality", "%s: %r %r" % (what, q, sorted(map(int, v))))
                        continue
                    for k, g in v.items():
                        # a value undefined at a position is not a number
                        w = want[int(k)]
                        ok = (g == w) | (numpy.isnan(g) & (numpy.isnan(w) | (wq == 0)))
                        if g.shape != w.shape or g.dtype != numpy.dtype("c16") or not ok.all():
                            R.fail("interpolations:value", "%s, %s: %r instead of %r" % (what, k, g, w))
                            break
            R.trace()


def model_operations():
    """Sequences of operations on a model; the library does the same."""
    depth = 3 if R.thorough else 2

    def add(n, k):
        def f(b, r, spec):
            w = wave(size(spec[0]), k)
            b.add_constituent(n, w)
            must("vp_add", r, n, w, len(w))
        return "add " + n, f

    def bad(n, grow):
        def f(b, r, spec):
            w = wave(size(spec[0]) + grow, 1)
            try:
                must("vp_add", r, n, w, len(w))
                raise AssertionError("accepted by the library")
            except Refused:
                pass
            try:
                b.add_constituent(n, w)
            except ValueError:
                return
            R.fail("model_operations:accepted", "%s: %s with %+d values" % (spec, n, grow))
        return "bad %s%+d" % (n, grow), f

    def dynamic(*names):
        def f(b, r, spec):
            v = [C[n] for n in names]
            b.dynamic = v
            must("vp_set_dynamic", r, numpy.array([int(x) for x in v] + [0], dtype="i4"), len(v))
        return "dynamic " + " ".join(names), f

    def clear(b, r, spec):
        b.clear()
        must("vr_clear", r)

    def copy(b, r, spec):
        c = pickle.loads(pickle.dumps(b))
        if type(c) is not type(b) or not same_full(full(c), full(b)):
            R.fail("model_operations:pickle", "%s: the copy differs" % (spec,))
        return c

    ops = [add("M2", 0), add("m2", 3), add("S2", 1), add("mF", 2), bad("K1", 1), bad("K1", -1), bad("XX", 0), dynamic("Mf", "Mm"), dynamic(), dynamic("M2"), ("clear", clear), ("copy", copy)]
    for spec in SPECS:
        for seq in itertools.chain.from_iterable(itertools.product(range(len(ops)), repeat=d) for d in range(depth + 1)):
            if not R.begin("model_operations"):
                continue
            b, r = empty_models(spec)
            what = "%s: %s" % (spec, ", ".join(ops[i][0] for i in seq))
            try:
                for i in seq:
                    b = ops[i][1](b, r, spec) or b
                    R.transition()
                got, want = full(b), rfull(b, r)
            except Refused:
                continue
            except Exception as e:  # noqa: BLE001
                R.fail("model_operations:refused", "%s: %s: %s" % (what, type(e).__name__, e))
                continue
            if not same_full(got, want):
                R.fail("model_operations:state", "%s: %r instead of %r" % (what, got[1:], want[1:]))
            if spec[0] == "cartesian":
                if not (b.lon() == CORE.Axis(LON, is_circular=True) and b.lat() == CORE.Axis(LAT)):
                    R.fail("model_operations:axes", what)
            else:
                x = b.index()
                if not (same(x.lon(), VLON) and same(x.lat(), VLAT) and same(x.triangles(), TRI)):
                    R.fail("model_operations:index", what)
            R.state("model_operations", spec, seq)
            R.trace()
    for spec in SPECS:
        for rep in COMPLEX_VECTOR:
            if not R.begin("wave_layouts"):
                continue
            b, r = empty_models(spec)
            for k, n in enumerate(("M2", "K1")):
                w = wave(size(spec[0]), k)
                must("vp_add", r, n, w, len(w))
                f = (lambda: b.add_constituent(n, COMPLEX_VECTOR[rep](w))) if k else (lambda: b.add_constituent(wave=COMPLEX_VECTOR[rep](w), name=n))
                attempt("wave_layouts:refused", "%s %s" % (spec, rep), f)
                R.transition()
            if not same_full(full(b), rfull(b, r)):
                R.fail("wave_layouts:value", "%s %s" % (spec, rep))
            R.state("wave_layouts", spec, rep)
            R.trace()


def constructors():
    """The arguments of the constructors, in every form"""
    for mode in ("positional", "keywords", "defaults"):
        for bits in (128, 64):
            for radial in (False, True):
                for major in (True, False):
                    for distance in (0, 0.0, 500000, 3e6):
                        for kind in ("cartesian", "lgp1", "lgp2"):
                            if kind == "cartesian" and distance or kind != "cartesian" and not major or mode == "defaults" and (radial or not major or distance):
                                continue
                            if not R.begin("constructors"):
                                continue
                            tide = CORE.TideType.kRadial if radial else CORE.TideType.kTide
                            r = RModel()
                            if kind == "cartesian":
                                k = getattr(TM, "CartesianComplex%d" % bits)
                                a = (CORE.Axis(LON, 1e-6, True), CORE.Axis(LAT))
                                f = {"positional": lambda: k(*a, tide, major), "keywords": lambda: k(longitude_major=major, tide_type=tide, lat=a[1], lon=a[0]), "defaults": lambda: k(*a)}[mode]
                                must("vp_cartesian", bits, RAxis(LON, circular=True), RAxis(LAT), int(tide), major, r.out())
                            else:
                                order = int(kind[-1])
                                codes = TRI if order == 1 else CODES6
                                k = getattr(TM, "LGP%dComplex%d" % (order, bits))
                                x = CORE.mesh.Index(lon=VLON, lat=VLAT, triangles=TRI)
                                f = {"positional": lambda: k(x, codes, tide, distance), "keywords": lambda: k(max_distance=distance, tide_type=tide, codes=codes, index=x), "defaults": lambda: k(x, codes)}[mode]
                                must("vp_lgp", bits, order, RIndex(VLON, VLAT, TRI), codes, len(codes), int(tide), float(distance), r.out())
                            what = "%s %d %s %s %s %s" % (kind, bits, mode, tide, major, distance)
                            b = attempt("constructors:refused", what, f)
                            if b is None:
                                continue
                            w = wave(size(kind), 1)
                            b.add_constituent("M2", w)
                            must("vp_add", r, "M2", w, len(w))
                            R.transition()
                            if not same_full(full(b), rfull(b, r)):
                                R.fail("constructors:value", "%s: %r instead of %r" % (what, full(b)[1:], rfull(b, r)[1:]))
                            base = CORE.AbstractTidalModelComplex128 if bits == 128 else CORE.AbstractTidalModelComplex64
                            if not isinstance(b, base):
                                R.fail("constructors:class", what)
                            R.state("constructors", what)
                            R.trace()
    for kind, arg, reps in [("lgp1", "codes", MATRIX), ("lgp2", "codes", MATRIX), ("index", "lon", FLOAT_VECTOR), ("index", "lat", FLOAT_VECTOR), ("index", "triangles", MATRIX)]:
        for rep in list(reps) + (["i8", "f8"] if reps is MATRIX else []):
            if not R.begin("mesh_layouts"):
                continue
            conv = reps.get(rep) or (lambda a: a.astype(rep))
            args = dict(lon=VLON, lat=VLAT, triangles=TRI)
            what = "%s: %s %s" % (kind, arg, rep)
            if kind == "index":
                args[arg] = conv(args[arg])
                x = attempt("mesh_layouts:refused", what, lambda: CORE.mesh.Index(**args))
                if x is not None and not (same(x.lon(), VLON) and same(x.lat(), VLAT) and same(x.triangles(), TRI) and x.triangles().dtype == numpy.dtype("i4")):
                    R.fail("mesh_layouts:index", what)
            else:
                codes = TRI if kind == "lgp1" else CODES6
                k = getattr(TM, "LGP%sComplex128" % kind[-1])
                b = attempt("mesh_layouts:refused", what, lambda: k(CORE.mesh.Index(**args), conv(codes)))
                if b is not None:
                    b.add_constituent("M2", wave(size(kind), 0))
                    r = models((kind, 128, False, True), ["M2"])[1]
                    if not same_full(full(b), rfull(b, r)):
                        R.fail("mesh_layouts:codes", what)
            R.transition()
            R.state("mesh", kind, arg, rep)
            R.trace()


# --------------------------------------------------------------------- tables
def subset_tables():
    yield "all", [], 1
    yield "main", MAIN, 1
    yield "long", ["Mf", "Mm", "Sa", "Ssa"], 1
    yield "one", ["M2"], 1
    yield "case", ["m2", "MF", "k1", "o1", "Q1", "2n2", "n2", "K2", "mu2"], 1


def table_operations():
    """Sequences of operations on a table, on the waves taken from it (by every
    way of taking them) and on objects used with it."""
    angle = {}

    def angles(f, k):
        if (f, k) not in angle:
            a = CORE.AstronomicAngle(FORMULAE[f])
            a.update(DATES[k].astype(datetime.datetime), int(LEAP[k]))
            angle[f, k] = a
        return angle[f, k]

    def nodal(f, k):
        def op(b, r, names):
            b.compute_nodal_corrections(angles(f, k))
            ref("vr_table_nodal", r, f, float(EPOCH[k]), int(LEAP[k]))
        return "nodal %d %d" % (f, k), op

    def takers(b, name):
        yield "index", lambda: b[C[name]]
        yield "find", lambda: b.find(name)
        yield "lower", lambda: b.find(name.lower())
        yield "iterate", lambda: next(w for w in b if w.name().upper() == name.upper())
        yield "values", lambda: next(w for w in b.values() if w.name().upper() == name.upper())

    def put(name, how, what, val):
        def op(b, r, names):
            if not any(n.upper() == name.upper() for n in names):
                return
            w = dict(takers(b, name))[how]()
            if what == 0:
                w.tide = val
                ref("vr_table_set", r, int(C[name]), 0, float(complex(val).real), float(complex(val).imag))
            elif what == 1:
                w.admittance = val
                ref("vr_table_set", r, int(C[name]), 1, float(val), 0.0)
            else:
                w.dynamic = val
                ref("vr_table_set", r, int(C[name]), 2, float(val), 0.0)
        return "%s of %s by %s = %r" % (("tide", "admittance", "dynamic")[what], name, how, val), op

    def one(name, which):
        def op(b, r, names):
            if not any(n.upper() == name.upper() for n in names):
                return
            w = b.find(name)
            (w.nodal_a if which == 0 else w.nodal_g)(angles(2, 1))
            must("vr_wave_nodal", r, int(C[name]), which, 2, float(EPOCH[1]), int(LEAP[1]))
        return "nodal_%s of %s" % ("ag"[which], name), op

    def admit(b, r, names):
        code = ref("vr_table_admittance", r)
        try:
            b.admittance()
        except Exception as e:  # noqa: BLE001
            if not code:
                raise
            return
        if code:
            R.fail("table_operations:accepted", "admittance of %r" % (names,))

    def interp(spec, x, y):
        def op(b, r, names):
            if spec not in cache:
                cache[spec] = models(spec, ["M2", "K1", "O1", "2N2", "Mf"])
            mb, mr = cache[spec]
            q = ctypes.c_int()
            code = ref("vr_interpolate_table", mr, float(x), float(y), r, ctypes.byref(q))
            try:
                g = mb.interpolate(x, y, b)
            except Exception:  # noqa: BLE001
                if not code:
                    raise
                return
            if code or int(g) != q.value or not isinstance(g, CORE.Quality):
                R.fail("table_operations:quality", "%s at %s %s: %r instead of %d" % (spec, x, y, g, q.value))
        return "interpolate %s %s %s" % (spec[:2], x, y), op
    cache = {}

    def lpe(b, r, names):
        for f in range(3):
            for lat in (0, 45.5, -90):
                e = CORE.LongPeriodEquilibrium()
                g = refused_by(lambda: e.disable_dynamic_wave(b) or e.lpe_minus_n_waves(angles(f, 2), lat))
                w = equilibrium(r, f, EPOCH[2], LEAP[2], lat)
                if g != w and not g[0] == w[0] != 0:
                    R.fail("table_operations:lpe", "%r: %r instead of %r" % (names, g, w))

    ops = [nodal(0, 0), nodal(1, 3), nodal(2, 8), put("M2", "index", 0, 1 + 2j), put("K1", "find", 0, -3.5), put("Mu2", "lower", 0, 4), put("Mf", "iterate", 0, 7j), put("O1", "values", 0, 5 + 1j),
           put("M2", "find", 2, True), put("Mu2", "values", 1, False), put("Mm", "iterate", 1, True), put("Mf", "index", 2, True), one("M2", 0), one("M2", 1), one("K2", 1), ("admittance", admit),
           interp(SPECS[0], 5, 5), interp(SPECS[2], 359, 10.5), interp(SPECS[-1], 3, 4), interp(SPECS[0], 0, 80), ("lpe", lpe)]
    for tname, names, _ in subset_tables():
        real = names or KNOWN
        # a sequence of three starts with the nodal corrections, or with a value
        depth = 3 if R.thorough else 2
        for seq in itertools.chain.from_iterable(itertools.product(range(len(ops)), repeat=d) for d in range(depth + 1)):
            if not R.begin("table_operations"):
                continue
            r = RTable(names)
            b = (PYFES.WaveTable if sum(seq) % 3 == 0 else PYFES.WaveDict if sum(seq) % 3 == 1 else CORE.WaveTable)(names)
            before = {w.name(): w for w in b}
            what = "%s: %s" % (tname, ", ".join(ops[i][0] for i in seq))
            try:
                for i in seq:
                    ops[i][1](b, r, real)
                    R.transition()
                got, want = btable(b), r.state()
            except Exception as e:  # noqa: BLE001
                R.fail("table_operations:refused", "%s: %s: %s" % (what, type(e).__name__, e))
                continue
            if not same(got, want):
                bad = [x for x in range(min(len(got), len(want))) if not same(got[x], want[x])][:1]
                R.fail("table_operations:state", "%s: %r instead of %r" % (what, [got[x].tolist() for x in bad], [want[x].tolist() for x in bad]))
            # the waves taken before are those of the table
            if any(w is not b.find(n) or not same(bwave(w), bwave(b[w.ident])) for n, w in before.items()):
                R.fail("table_operations:identity", what)
            if len(b) != len(want) or b.keys() != [w.name() for w in b] or [w.name() for w in b.values()] != b.keys():
                R.fail("table_operations:keys", "%s: %d %r" % (what, len(b), b.keys()))
            R.state("table", tname, seq)
            R.trace()


def refused_by(f):
    """How f refuses: 1 for an invalid value, 2 otherwise; 0 and its result"""
    try:
        return 0, f()
    except ValueError:
        return 1, None
    except Exception:  # noqa: BLE001
        return 2, None


def table_names():
    lists = [[], ["M2"], ["m2"], ["M2", "M2"], ["M2", "m2"], ["K1", "M2"], ["M2", "K1"], ["XX"], ["M2", "XX"], ["M2", ""], KNOWN, KNOWN[::-1], [n.lower() for n in KNOWN], [n.upper() for n in KNOWN],
             KNOWN * 2] + [[n] for n in KNOWN] + [[a, b] for a, b in zip(KNOWN, KNOWN[5:])]
    for names in lists:
        if not R.begin("table_names"):
            continue
        for k in (CORE.WaveTable, PYFES.WaveTable, PYFES.WaveDict):
            ways = [("positional", lambda: k(names)), ("keyword", lambda: k(waves=names)), ("tuple", lambda: k(tuple(names)))] + ([("default", lambda: k())] if not names else [])
            for wname, f in ways:
                R.transition()
                what = "%s %s %r" % (k.__name__, wname, names)
                try:
                    r = RTable(names)
                except Refused as e:
                    r = e.args[0]
                code, b = refused_by(f)
                if isinstance(r, int):
                    if code != r:
                        R.fail("table_names:accepted", what)
                    continue
                if code:
                    R.fail("table_names:refused", what)
                    continue
                if not same(btable(b), r.state()):
                    R.fail("table_names:waves", "%s: %r" % (what, b.keys()))
                for n in KNOWN + ["XX", "", "m2 ", "M", "mF", "LAMBDA2"]:
                    i = ctypes.c_int()
                    want = ref("vr_find", r, n, ctypes.byref(i))
                    code, w = refused_by(lambda: b.find(n))
                    g = None if code else -1 if w is None else int(w.ident)
                    if code != want or (not code and g != i.value):
                        R.fail("table_names:find", "%s: find(%r): %r %r instead of %r %r" % (what, n, code, g, want, i.value))
                for n in KNOWN:
                    i = ctypes.c_int()
                    want = ref("vr_get", r, int(C[n]), ctypes.byref(i))
                    code, w = refused_by(lambda: b[C[n]])
                    g = None if code else -1 if w is None else int(w.ident)
                    if bool(code) != bool(want) or (not code and g != i.value):
                        R.fail("table_names:item", "%s: [%s]: %r %r instead of %r %r" % (what, n, code, g, want, i.value))
                if k is CORE.WaveTable:
                    continue
                f = b.freq()
                w = r.state()[:, 2]
                if k is PYFES.WaveTable and not same(f, w) or k is PYFES.WaveDict and list(f.items()) != list(zip(b.keys(), w.tolist())):
                    R.fail("table_names:freq", what)
        R.state("names", tuple(names))
        R.trace()
    for n in KNOWN:
        if not R.begin("constituents"):
            continue
        i = ctypes.c_int()
        for s in (n, n.upper(), n.lower(), n.swapcase()):
            must("vp_parse", s, ctypes.byref(i))
            c = CORE.constituents.parse(s)
            if int(c) != i.value or c != getattr(CORE, "k" + CORE.constituents.name(c)) or CORE.constituents.name(c) != n or CORE.constituents.name(constituent=CORE.constituents.parse(name=s)) != n:
                R.fail("constituents:parse", "%r: %r instead of %d" % (s, c, i.value))
            R.transition()
        w = CORE.WaveTable([n])[C[n]]
        buf = ctypes.create_string_buffer(64)
        must("vr_doodson", i.value, buf)
        if w.doodson_number() != buf.value.decode() or w.name() != n or w.ident != C[n]:
            R.fail("constituents:wave", "%s: %r %r" % (n, w.name(), w.doodson_number()))
        if CORE.constituents.known() != KNOWN or len({int(getattr(CORE.Constituent, "k" + m)) for m in KNOWN}) != len(KNOWN):
            R.fail("constituents:known", "%r" % (CORE.constituents.known(),))
        R.state("constituent", n)
        R.trace()
    for n in ["", "M", "M22", "XX", " M2", "M2 ", "kM2", "M2\0", "é", "M2" * 50]:
        if not R.begin("constituents"):
            continue
        code, g = refused_by(lambda: CORE.constituents.parse(n))
        R.transition()
        R.state("constituent", n)
        if code != 1:
            R.fail("constituents:accepted", "%r: %r %r" % (n, code, g))


# ------------------------------------------------------------------- analysis
def modulations(r, n, f, epoch, leap):
    a, v = numpy.zeros((n, len(epoch))), numpy.zeros((n, len(epoch)))
    must("vr_modulations", r, epoch, len(epoch), leap, f, a, v)
    return a, v


def analysis():
    day = numpy.arange(60) * numpy.timedelta64(5, "h") + numpy.datetime64("2012-06-20", "s")
    epoch = epochs(day)
    leap = numpy.full(60, 34, dtype="u2")
    for tname, names, _ in subset_tables():
        n = len(names or KNOWN)
        for f in (None, 0, 1, 2):
            for k in (CORE.WaveTable, PYFES.WaveTable, PYFES.WaveDict):
                if not R.begin("modulations"):
                    continue
                b, r = k(names), RTable(names)
                # the default differs: order 3 in the compiled module, as the
                # functions documented, order 1 in the package
                default = 1 if k is CORE.WaveTable else 0
                fo = () if f is None else (FORMULAE[f],)
                kw = {} if f is None else dict(formulae=FORMULAE[f])
                want = modulations(r, n, default if f is None else f, EPOCH, LEAP)
                days = [d.astype("M8[us]").astype(datetime.datetime) for d in DATES]
                forms = [("unit " + u, DATE[u](DATES), LEAP) for u in DATE] + [("leap " + u, DATES, U2_VECTOR[u](LEAP)) for u in U2_VECTOR]
                if k is not CORE.WaveTable:
                    forms += [("datetimes", days, LEAP), ("datetimes and a list", days, LEAP.tolist())]
                for form, d, ls in forms:
                    for way, call in (("positional", lambda: b.compute_nodal_modulations(d, ls, *fo)), ("keywords", lambda: b.compute_nodal_modulations(leap_seconds=ls, dates=d, **kw))):
                        what = "%s %s, formulae %s, %s, %s" % (k.__name__, tname, f, form, way)
                        got = attempt("modulations:refused", what, call)
                        R.transition()
                        if got is not None and not (len(got) == 2 and near(got[0], want[0]) and got[1].shape == want[1].shape and near(numpy.exp(1j * got[1]), numpy.exp(1j * want[1]))):
                            R.fail("modulations:value", what)
                        R.state("modulations", what)
                R.trace()
                if f is None and k is PYFES.WaveDict:
                    R.sample("modulations of %s: %r" % (tname, want[0][0][:2].tolist()))
        for f in (None, 0, 1, 2):
            for k in (CORE.WaveTable, PYFES.WaveTable, PYFES.WaveDict):
                if not R.begin("series"):
                    continue
                b, r = k(names), RTable(names)
                w = wave(n, 2)
                fi = 1 if f is None else f
                fo = () if f is None else (FORMULAE[f],)
                kw = {} if f is None else dict(formulae=FORMULAE[f])
                want = numpy.zeros(len(DAYS))
                must("vr_series", r, EPOCH, len(DAYS), LEAP, w, n, fi, want)
                if k is PYFES.WaveDict:
                    d = dict(zip(b.keys(), w))
                    back = dict(reversed(list(d.items())))
                    forms = [("dates " + u, DATE[u](DATES), LEAP, d) for u in DATE] + [("leap " + u, DATES, U2_VECTOR[u](LEAP), back) for u in U2_VECTOR]
                    forms += [("python numbers", DATES, LEAP, {k2: complex(v) for k2, v in back.items()})]
                else:
                    forms = [("dates " + u, DATE[u](DATES), LEAP, w) for u in DATE] + [("leap " + u, DATES, U2_VECTOR[u](LEAP), w) for u in U2_VECTOR]
                    forms += [("wave " + u, DATES, LEAP, COMPLEX_VECTOR[u](w)) for u in COMPLEX_VECTOR]
                for form, d, ls, wv in forms:
                    for way, call in (("positional", lambda: b.tide_from_tide_series(d, ls, wv, *fo)), ("keywords", lambda: b.tide_from_tide_series(wave=wv, leap_seconds=ls, dates=d, **kw))):
                        what = "%s %s, formulae %s, %s, %s" % (k.__name__, tname, f, form, way)
                        got = attempt("series:refused", what, call)
                        R.transition()
                        if got is not None and not near(got, want):
                            R.fail("series:value", "%s: %r instead of %r" % (what, got[:3], want[:3]))
                        R.state("series", what)
                if k is PYFES.WaveDict:
                    for bad in (dict(list(d.items())[1:]) if isinstance(d, dict) else {}, {}, {"XX": 1j}):
                        code, g = refused_by(lambda: b.tide_from_tide_series(DATES, LEAP, bad))
                        if not code and len(bad) != n:
                            R.fail("series:accepted", "%s: %r" % (tname, bad))
                R.trace()
        for f in (None, 0, 1, 2):
            for threads in (0, 1, 2, 5):
                if not R.begin("mapping"):
                    continue
                b, r = PYFES.WaveTable(names), RTable(names)
                w = wave(n * 7, 1).reshape(n, 7)
                fi = 1 if f is None else f
                kw = {} if f is None else dict(formulae=FORMULAE[f])
                reps = dict(MATRIX, c8=lambda a: a.astype("c8"), long=lambda a: a.astype("clongdouble"))
                for k in range(len(DAYS)):
                    d = DATES[k].astype(datetime.datetime)
                    want = numpy.zeros((7, n))
                    must("vr_mapping", r, float(EPOCH[k]), int(LEAP[k]), numpy.ascontiguousarray(w), n, 7, fi, threads, want)
                    for rep in (reps if k < 2 else ["same", "fortran"]):
                        wv = reps[rep](w)
                        calls_ = [("keywords", lambda: b.tide_from_mapping(mapping=wv, leap_seconds=int(LEAP[k]), date=d, num_threads=threads, **kw))]
                        if f is not None:
                            calls_.append(("positional", lambda: b.tide_from_mapping(d, LEAP[k], wv, FORMULAE[f], threads)))
                        elif threads == 0:
                            calls_.append(("defaults", lambda: b.tide_from_mapping(d, LEAP[k], wv)))
                        for way, call in calls_:
                            what = "%s, formulae %s, %d threads, %s, %s, %s" % (tname, f, threads, d, rep, way)
                            got = attempt("mapping:refused", what, call, rep in REVERSED)
                            R.transition()
                            if got is not None and not near(got, want):
                                R.fail("mapping:value", what)
                            R.state("mapping", what)
                R.trace()
    names = ["M2", "S2", "N2", "K1", "O1", "M4"]
    n = len(names)
    fv = {}
    for f in range(3):
        fv[f] = modulations(RTable(names), n, f, epoch, leap)
    h = numpy.round(8 * sum((k + 1) * fv[0][0][k] * numpy.cos(fv[0][1][k] - k) for k in range(n)))
    for rh in FLOAT_VECTOR:
        for rf in list(MATRIX) + ["f8"]:
            for rv in (MATRIX if R.thorough else ["same", "fortran", rf]):
                if not R.begin("harmonic"):
                    continue
                for f in range(3):
                    a, v = fv[f]
                    o = numpy.zeros(n, "c16")
                    must("vr_harmonic", numpy.ascontiguousarray(h), len(h), numpy.ascontiguousarray(a), numpy.ascontiguousarray(v), n, len(h), o)
                    x, y, z = FLOAT_VECTOR[rh](h), MATRIX.get(rf, numpy.copy)(a), MATRIX.get(rv, numpy.copy)(v)
                    for way, call in (("core", lambda: CORE.WaveTable.harmonic_analysis(x, y, z)), ("keywords", lambda: PYFES.WaveTable.harmonic_analysis(vu=z, f=y, h=x)),
                                      ("object", lambda: PYFES.WaveTable(names).harmonic_analysis(x, y, z)), ("dict", lambda: PYFES.WaveDict(names).harmonic_analysis(x, y, z))):
                        what = "h %s, f %s, vu %s, %s" % (rh, rf, rv, way)
                        got = attempt("harmonic:refused", what, call, rf in REVERSED or rv in REVERSED)
                        R.transition()
                        if got is None:
                            continue
                        if way == "dict":
                            # by name, in the order of the table
                            if list(got) != PYFES.WaveDict(names).keys():
                                R.fail("harmonic:names", "%s: %r" % (what, list(got)))
                                continue
                            got = numpy.array(list(got.values()))
                        if not same(got, o):
                            R.fail("harmonic:value", "%s: %r instead of %r" % (what, got, o))
                    R.state("harmonic", rh, rf, rv, f)
                R.trace()
    for duration in [0, 1, 3600, 86400, 86400.0 * 15, 86400 * 365, 86400 * 365.25 * 30, -5, float("nan"), float("inf")]:
        for f in (None, 2, 2.0, 1, 0.5, 10, -1, 0):
            if not R.begin("select"):
                continue
            ids = (ctypes.c_int * 99)()
            c = LIB.vr_select(ctypes.c_double(duration), ctypes.c_double(2.0 if f is None else f), ids)
            want = [ids[i] for i in range(c)]
            for k in (CORE.WaveTable, PYFES.WaveTable, PYFES.WaveDict):
                got = k.select_waves_for_analysis(duration) if f is None else k.select_waves_for_analysis(f=f, duration=duration)
                R.transition()
                if [int(C[x]) for x in got] != want:
                    R.fail("select", "%r %r: %r" % (duration, f, got))
            R.state("select", repr(duration), f)
            R.trace()


# ---------------------------------------------------------------- other objects
ANGLES = ["t", "n", "h", "s", "p1", "p", "i", "xi", "nu", "x1ra", "r", "nuprim", "nusec"]


def angles():
    moments = [d.astype("M8[us]").astype(datetime.datetime) + datetime.timedelta(seconds=s, microseconds=u) for d in DATES for s, u in ((0, 0), (1, 0), (43200, 0), (86399, 999999), (3661, 1))]
    for f in (None, 0, 1, 2):
        for m in moments:
            if not R.begin("angles"):
                continue
            e = (m - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
            e = e // 1000000 + (e % 1000000) * 1e-6
            for leap in (0, 10, 32, 37, 32767):
                want = numpy.zeros(13)
                ref("vr_angles", f or 0, float(e), leap, want)
                fo = () if f is None else (FORMULAE[f],)
                ways = [("core", lambda: CORE.AstronomicAngle(*fo), lambda a: a.update(m, leap)), ("keywords", lambda: CORE.AstronomicAngle(formulae=FORMULAE[f or 0]), lambda a: a.update(leap_seconds=leap, date=m)),
                        ("numpy", lambda: CORE.AstronomicAngle(*fo), lambda a: a.update(m, numpy.uint16(leap)))]
                for way, make, update in ways:
                    a = make()
                    for before in (None, moments[7]):
                        if before:
                            a.update(before, 3)
                        update(a)
                        got = numpy.array([getattr(a, x) for x in ANGLES])
                        R.transition()
                        if not same(got, want):
                            R.fail("angles:value", "%s, formulae %s, %s, leap %d: %r instead of %r" % (m, f, way, leap, got, want))
                R.state("angles", f, e, leap)
            # the package finds the leap seconds itself
            k = [i for i in range(len(DAYS)) if DAYS[i] == m.date().isoformat()][0]
            want = numpy.zeros(13)
            ref("vr_angles", f or 0, float(e), int(LEAP[k]), want)
            a = PYFES.AstronomicAngle() if f is None else PYFES.AstronomicAngle(FORMULAE[f])
            a.update(m)
            got = numpy.array([getattr(a, x) for x in ANGLES])
            if not same(got, want) or a.date != m or str(m) not in repr(a):
                R.fail("angles:package", "%s: %r %r instead of %r" % (m, a, got, want))
            R.trace()
    if R.begin("angles"):
        a = PYFES.AstronomicAngle()
        low = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        a.update()
        high = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        b = PYFES.AstronomicAngle()
        b.update(a.date)
        if not low <= a.date <= high or any(getattr(a, x) != getattr(b, x) for x in ANGLES):
            R.fail("angles:now", "%s %s %s" % (low, a.date, high))


def settings():
    lists = [None, [], ["M2"], ["m2", "Mf"], KNOWN, KNOWN[::-1], ["M2", "M2"]]
    for f in (None, 0, 1, 2):
        for tol in (None, 0, 0.0, 1, 60.5, 1e9, -1, -1e-300, float("nan")):
            for names in lists:
                if not R.begin("settings"):
                    continue
                ex = None if names is None else [CORE.constituents.parse(n) for n in names]
                kw = {}
                if f is not None:
                    kw["astronomic_formulae"] = FORMULAE[f]
                if tol is not None:
                    kw["time_tolerance"] = tol
                ways = [("core", lambda: CORE.Settings(**kw, excluded=ex)), ("pyfes", lambda: PYFES.Settings(**kw, excluded=names)), ("tuple", lambda: CORE.Settings(**kw, excluded=None if ex is None else tuple(ex)))]
                if f is not None and tol is not None:
                    ways.append(("positional", lambda: CORE.Settings(FORMULAE[f], tol, ex)))
                if names is None:
                    ways += [("omitted", lambda: CORE.Settings(**kw)), ("pyfes omitted", lambda: PYFES.Settings(**kw))]
                codes = []
                for way, make in ways:
                    code, s = refused_by(make)
                    codes.append(code)
                    R.transition()
                    if code:
                        continue
                    want = (FORMULAE[f or 0], float(tol or 0), ex or [])
                    got = (s.astronomic_formulae, s.time_tolerance, s.excluded)
                    if got[0] != want[0] or got[2] != want[2] or not same(got[1], want[1]):
                        R.fail("settings:value", "%s %r %r %r: %r" % (way, f, tol, names, got))
                valid = tol is None or tol >= 0
                if len(set(codes)) != 1 or valid and codes[0] or codes[0] == 2:
                    R.fail("settings:refused", "%r %r %r: %r" % (f, tol, names, codes))
                R.outcome("settings refused" if codes[0] else "settings accepted")
                R.state("settings", f, repr(tol), None if names is None else tuple(names))
                R.trace()
    if R.begin("settings"):
        for names in (["XX"], ["M2", ""], "M2", [3], [None]):
            code, s = refused_by(lambda: PYFES.Settings(excluded=names))
            if not code and names != "M2":
                R.fail("settings:accepted", "%r" % (names,))


def axes():
    grids = [(numpy.arange(8) * 45.0, True), (numpy.arange(5) * 10.0 - 20, False), (numpy.arange(5) * -10.0 + 20, False), (numpy.arange(360) * 1.0 - 180, True), (numpy.arange(8) * -45.0 + 180, True),
             (numpy.array([0.0, 1.0]), False), (numpy.arange(4) * 0.1, False)]
    probes = [-400, -180.5, -45, -22.5, -20, -15, -5.000001, 0, 0.05, 0.1, 0.15, 0.3, 0.35, 1, 10, 15, 20, 20.1, 22.5, 180, 337.5, 359, 360, 721, float("nan"), float("inf")]
    for k, (g, circ) in enumerate(grids):
        for eps in (None, 1e-6, 0.01):
            for rep in (FLOAT_VECTOR if (g == g.round()).all() else VECTOR):
                if not R.begin("axis"):
                    continue
                v = FLOAT_VECTOR[rep](g)
                r = RAxis(g, 1e-6 if eps is None else eps, circ)
                ways = [("keywords", lambda: CORE.Axis(is_circular=circ, points=v, **({} if eps is None else dict(epsilon=eps))))]
                if eps is not None:
                    ways.append(("positional", lambda: CORE.Axis(v, eps, circ)))
                if not circ:
                    ways.append(("defaults", lambda: CORE.Axis(v) if eps is None else CORE.Axis(v, eps)))
                for way, make in ways:
                    what = "%s %s %s %s" % (g[:3], eps, rep, way)
                    b = attempt("axis:refused", what, make)
                    if b is None:
                        continue
                    o = numpy.zeros(8)
                    must("vr_axis", r, o)
                    got = [len(b), b.start, b.step, b.is_ascending, b.is_circular, b.end(), b.min_value(), b.max_value()]
                    if not same(numpy.array(got, dtype="f8"), o):
                        R.fail("axis:properties", "%s: %r instead of %r" % (what, got, o))
                    for i in list(range(-2, len(g) + 2)) + [2 ** 31, -2 ** 31]:
                        x = ctypes.c_double()
                        want = ref("vr_axis_at", r, ctypes.c_long(i), ctypes.byref(x))
                        code, y = refused_by(lambda: b[i])
                        if bool(code) != bool(want) or not code and x.value != y:
                            R.fail("axis:item", "%s [%d]: %r %r" % (what, i, code, y))
                    for p in probes:
                        for bounded in (None, True, False):
                            want = LIB.vr_axis_index(r.p, ctypes.c_double(p), int(bounded is not False))
                            code, y = refused_by(lambda: b.find_index(p) if bounded is None else b.find_index(value=p, bounded=bounded))
                            if code or y != want:
                                R.fail("axis:find_index", "%s %r %r: %r instead of %r" % (what, p, bounded, y, want))
                        o2 = (ctypes.c_long * 2)()
                        want = tuple(o2) if LIB.vr_axis_indices(r.p, ctypes.c_double(p), o2) else None
                        want = want and tuple(o2)
                        code, y = refused_by(lambda: b.find_indices(p))
                        if code or y != want:
                            R.fail("axis:find_indices", "%s %r: %r instead of %r" % (what, p, y, want))
                        R.transition(4)
                    for k2, (g2, c2) in enumerate(grids):
                        if (b == CORE.Axis(g2, is_circular=c2)) != bool(ref("vr_axis_equal", r, RAxis(g2, circular=c2))):
                            R.fail("axis:equal", what)
                R.state("axis", k, eps, rep)
                R.trace()


# ------------------------------------------------------------- wrong arguments
class Index:
    def __index__(self):
        return 1


class Raises:
    def __index__(self):
        raise KeyError("index")

    def __float__(self):
        raise KeyError("float")

    def __array__(self, *a, **k):
        raise KeyError("array")

    def __len__(self):
        raise KeyError("len")

    def __getitem__(self, i):
        raise KeyError("item")

    def __str__(self):
        raise KeyError("str")


class Unmade(CORE.Axis):
    def __init__(self):
        pass


class UnmadeTable(CORE.WaveTable):
    def __init__(self):
        pass


class UnmadeModel(TM.CartesianComplex128):
    def __init__(self):
        pass


class UnmadeIndex(CORE.mesh.Index):
    def __init__(self):
        pass


def palette():
    return [
        ("None", None), ("text", "x"), ("no text", ""), ("name", "M2"), ("bytes", b"abc"), ("object", object()), ("class", CORE.Axis), ("True", True), ("-1", -1), ("0", 0), ("3", 3), ("2**40", 2 ** 40), ("2**70", 2 ** 70),
        ("-2**70", -2 ** 70), ("1.5", 1.5), ("nan", float("nan")), ("inf", float("inf")), ("1j", 1j), ("[]", []), ("[[]]", [[]]), ("{}", {}), ("()", ()), ("set", {1, 2}), ("range", range(10)), ("iterator", iter([1.0, 2.0])),
        ("index", Index()), ("raises", Raises()), ("raises list", [Raises()]), ("scalar", numpy.float64(3)), ("0-d", numpy.array(3.0)), ("3-d", numpy.zeros((2, 2, 2))), ("0 x 0", numpy.zeros((0, 0))), ("0 x 3", numpy.zeros((0, 3))),
        ("10 x 2", numpy.zeros((10, 2))), ("1 x 10", numpy.zeros((1, 10))), ("9", numpy.zeros(9)), ("11", numpy.zeros(11)), ("11 dates", numpy.zeros(11, "M8[s]")), ("10 strings", numpy.array(["a"] * 10)),
        ("10 objects", numpy.array([None] * 10)), ("10 dates", numpy.zeros(10, "M8[s]")), ("10 durations", numpy.zeros(10, "m8[s]")), ("10 years", numpy.zeros(10, "M8[Y]")), ("10 x 1 dates", numpy.zeros((10, 1), "M8[s]")),
        ("date 0-d", numpy.array("2000-01-01", "M8[s]")), ("10 complex", numpy.zeros(10, "c16")), ("10 nan", numpy.full(10, numpy.nan)), ("10 huge", numpy.full(10, 1e300)), ("records", numpy.zeros(10, "i4,f8")),
        ("ragged", [[1, 2], [3]]), ("NaT", numpy.datetime64("NaT", "s")), ("datetime64", numpy.datetime64("2000-01-01T00:00:00")), ("datetime", datetime.datetime(2000, 1, 1)), ("date", datetime.date(2000, 1, 1)),
        ("aware", datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)), ("year 9999", datetime.datetime(9999, 12, 31)), ("year 1", datetime.datetime(1, 1, 1)), ("datetimes", [datetime.datetime(2000, 1, 1)] * 10),
        ("formulae", CORE.kMeeus), ("constituent", CORE.kM2), ("tide type", CORE.kRadial), ("quality", CORE.kUndefined), ("enum out of range", CORE.Constituent(200)), ("formulae out of range", CORE.Formulae(77)),
        ("tide type out of range", CORE.TideType(9)), ("constituents", [CORE.kM2, CORE.kS2]), ("mixed", [CORE.kM2, "S2"]), ("constituent out of range", [CORE.Constituent(255)]),
        ("axis", CORE.Axis(LON)), ("axis not made", Unmade()), ("axis new", CORE.Axis.__new__(CORE.Axis)), ("table", CORE.WaveTable(["M2"])), ("empty dict table", PYFES.WaveDict(["Mf"])), ("table not made", UnmadeTable()),
        ("table new", CORE.WaveTable.__new__(CORE.WaveTable)), ("index new", CORE.mesh.Index.__new__(CORE.mesh.Index)), ("index not made", UnmadeIndex()), ("model new", TM.LGP1Complex128.__new__(TM.LGP1Complex128)), ("model not made", UnmadeModel()),
        ("model 64", models(SPECS[4])[0]), ("model 128", models(SPECS[0])[0]), ("lgp", models(SPECS[8])[0]), ("empty model", empty_models(SPECS[0])[0]), ("settings", CORE.Settings()), ("angle", CORE.AstronomicAngle()), ("lpe", CORE.LongPeriodEquilibrium()),
        ("wave", CORE.WaveTable(["M2"])[CORE.kM2]), ("mesh index", CORE.mesh.Index(VLON, VLAT, TRI)), ("abstract", CORE.AbstractTidalModelComplex128), ("accelerator", models(SPECS[0])[0].accelerator()),
    ]


def targets():
    """(name, function that makes a call with given arguments, right arguments,
    function giving what must not change when the call is refused)"""
    m = {s: models(s)[0] for s in (SPECS[0], SPECS[4], SPECS[8], SPECS[-1])}
    t = CORE.WaveTable(MAIN)
    a = CORE.AstronomicAngle()
    a.update(datetime.datetime(2000, 1, 1), 32)
    t.compute_nodal_corrections(a)
    for k, w in enumerate(t):
        w.tide = complex(k, 1)
    none = (lambda: None)
    h, f, vu = numpy.zeros(10), numpy.ones((2, 10)), numpy.arange(20.0).reshape(2, 10)
    out = []
    for s, b in m.items():
        keep = (lambda b=b: full(b))
        out.append(("evaluate %s" % (s,), lambda **k: CORE.evaluate_tide(**k), dict(tidal_model=b, date=DATES, leap_seconds=LEAP, longitude=PLON, latitude=PLAT, settings=None, num_threads=1), keep))
        out.append(("pyfes.evaluate %s" % (s,), lambda **k: PYFES.evaluate_tide(**k), dict(tidal_model=b, date=DATES, longitude=PLON, latitude=PLAT, settings=None, num_threads=1), keep))
        out.append(("interpolate %s" % (s,), lambda b=b, **k: b.interpolate(**k), dict(lon=PLON, lat=PLAT, num_threads=1), keep))
        out.append(("interpolate table %s" % (s,), lambda b=b, **k: b.interpolate(**k), dict(lon=1.0, lat=2.0, wave_table=CORE.WaveTable(MAIN)), keep))
        out.append(("add %s" % (s,), lambda b=b, **k: b.add_constituent(**k), dict(name="M2", wave=wave(size(s[0]), 0)), keep))
        out.append(("accelerator %s" % (s,), lambda b=b, **k: b.accelerator(**k), dict(formulae=CORE.kMeeus, time_tolerance=0.0), keep))
        out.append(("dynamic %s" % (s,), lambda b=b, **k: setattr(b, "dynamic", k["value"]), dict(value=[]), keep))
        out.append(("setstate %s" % (s,), lambda b=b, **k: type(b).__new__(type(b)).__setstate__(**{}) if "state" not in k else type(b).__new__(type(b)).__setstate__(k["state"]), dict(state=b.__getstate__()), keep))
    table = (lambda: btable(t).tolist().__repr__())
    out += [
        ("cartesian", lambda **k: TM.CartesianComplex128(**k), dict(lon=CORE.Axis(LON), lat=CORE.Axis(LAT), tide_type=CORE.kTide, longitude_major=True), none),
        ("lgp1", lambda **k: TM.LGP1Complex64(**k), dict(index=CORE.mesh.Index(VLON, VLAT, TRI), codes=TRI, tide_type=CORE.kTide, max_distance=0), none),
        ("lgp2", lambda **k: TM.LGP2Complex128(**k), dict(index=CORE.mesh.Index(VLON, VLAT, TRI), codes=CODES6, tide_type=CORE.kTide, max_distance=0), none),
        ("mesh", lambda **k: CORE.mesh.Index(**k), dict(lon=VLON, lat=VLAT, triangles=TRI), none),
        ("axis", lambda **k: CORE.Axis(**k), dict(points=LON, epsilon=1e-6, is_circular=False), none),
        ("axis item", lambda **k: CORE.Axis(LON)[k["i"]], dict(i=1), none),
        ("axis equal", lambda **k: CORE.Axis(LON) == k["o"], dict(o=CORE.Axis(LON)), none),
        ("find_index", lambda **k: CORE.Axis(LON).find_index(**k), dict(value=3.0, bounded=True), none),
        ("find_indices", lambda **k: CORE.Axis(LON).find_indices(**k), dict(values=3.0), none),
        ("table", lambda **k: CORE.WaveTable(**k), dict(waves=["M2"]), none),
        ("settings", lambda **k: CORE.Settings(**k), dict(astronomic_formulae=CORE.kMeeus, time_tolerance=0.0, excluded=None), none),
        ("pyfes.settings", lambda **k: PYFES.Settings(**k), dict(astronomic_formulae=CORE.kMeeus, time_tolerance=0.0, excluded=None), none),
        ("angle", lambda **k: CORE.AstronomicAngle(**k), dict(formulae=CORE.kMeeus), none),
        ("update", lambda **k: CORE.AstronomicAngle().update(**k), dict(date=datetime.datetime(2000, 1, 1), leap_seconds=32), none),
        ("pyfes.update", lambda **k: PYFES.AstronomicAngle().update(**k), dict(date=datetime.datetime(2000, 1, 1)), none),
        ("find", lambda **k: t.find(**k), dict(ident="M2"), table),
        ("item", lambda **k: t[k["i"]], dict(i=CORE.kM2), table),
        ("tide", lambda **k: setattr(t.find("M2"), "tide", k["v"]), dict(v=complex(4, 1)), table),
        ("nodal", lambda **k: t.compute_nodal_corrections(**k), dict(angles=a), table),
        ("nodal_a", lambda **k: t.find("M2").nodal_a(**k), dict(a=a), table),
        ("nodal_g", lambda **k: t.find("M2").nodal_g(**k), dict(a=a), table),
        ("admittance flag", lambda **k: setattr(t.find("M2"), "admittance", k["v"]), dict(v=False), table),
        ("dynamic flag", lambda **k: setattr(t.find("M2"), "dynamic", k["v"]), dict(v=False), table),
        ("harmonic", lambda **k: CORE.WaveTable.harmonic_analysis(**k), dict(h=h, f=f, vu=vu), none),
        ("series", lambda **k: t.tide_from_tide_series(**k), dict(dates=DATES, leap_seconds=LEAP, wave=wave(len(MAIN), 0), formulae=CORE.kMeeus), table),
        ("dict series", lambda **k: PYFES.WaveDict(["M2"]).tide_from_tide_series(**k), dict(dates=DATES, leap_seconds=LEAP, wave={"M2": 1j}, formulae=CORE.kMeeus), none),
        ("mapping", lambda **k: t.tide_from_mapping(**k), dict(date=datetime.datetime(2000, 1, 1), leap_seconds=32, mapping=wave(2 * len(MAIN), 0).reshape(-1, 2), formulae=CORE.kMeeus, num_threads=1), table),
        ("modulations", lambda **k: t.compute_nodal_modulations(**k), dict(dates=DATES, leap_seconds=LEAP, formulae=CORE.kMeeus), table),
        ("pyfes.modulations", lambda **k: PYFES.WaveTable(["M2"]).compute_nodal_modulations(**k), dict(dates=DATES, leap_seconds=LEAP, formulae=CORE.kMeeus), none),
        ("select", lambda **k: CORE.WaveTable.select_waves_for_analysis(**k), dict(duration=1.0, f=2.0), none),
        ("disable", lambda **k: CORE.LongPeriodEquilibrium().disable_dynamic_wave(**k), dict(wave_table=t), table),
        ("lpe", lambda **k: CORE.LongPeriodEquilibrium().lpe_minus_n_waves(**k), dict(angles=a, lat=1.0), none),
        ("parse", lambda **k: CORE.constituents.parse(**k), dict(name="M2"), none),
        ("name", lambda **k: CORE.constituents.name(**k), dict(constituent=CORE.kM2), none),
        ("as_int64", lambda **k: [getattr(CORE.datemanip, x)(k["d"]) for x in dir(CORE.datemanip) if x == "as_int64"], dict(d=datetime.datetime(2000, 1, 1)), none),
        ("leap", lambda **k: PYFES.get_leap_seconds(**k), dict(utc=DATES), none),
    ]
    return out


# arrays whose size has to be that of the others: 9, 11 and none are refused
SIZED = {("evaluate", x) for x in ("date", "leap_seconds", "longitude", "latitude")} | {("pyfes.evaluate", x) for x in ("date", "longitude", "latitude")} | {
    ("series", "dates"), ("series", "leap_seconds"), ("modulations", "dates"), ("modulations", "leap_seconds"), ("pyfes.modulations", "leap_seconds"), ("harmonic", "h")}
# never of any use
NONSENSE = ["text", "object", "class", "{}", "raises", "raises list", "ragged", "lpe", "accelerator", "set"]
TAKES_ANYTHING = {"axis equal", "dict series", "leap", "as_int64", "bound"}
# truth values
FLAGS = {("cartesian", "longitude_major"), ("axis", "is_circular"), ("find_index", "bounded"), ("admittance flag", "v"), ("dynamic flag", "v")}
ALLOWED = (TypeError, ValueError, IndexError, RuntimeError, OverflowError, KeyError, MemoryError, AttributeError)


def wrong():
    """Each argument of each function replaced by each wrong value: refused, or
    computed, without any effect when refused; the process goes on."""
    made = None
    values = palette()
    names = [n for n, *_ in targets()]
    for ti, name in enumerate(names):
        for vi in range(len(values)):
            if not R.begin("wrong"):
                continue
            if made is None:
                made = targets()
            _, call, right, keep = made[ti]
            for arg in right:
                vname, v = values[vi][0], palette_value(values, vi)
                R.note("%s(%s=%s)" % (name, arg, vname))
                before = keep()
                args = dict(right)
                args[arg] = v
                # those which change the state when accepted work on a copy
                error = None
                try:
                    call(**args)
                except ALLOWED as e:
                    error = e
                except Exception as e:  # noqa: BLE001
                    R.fail("wrong:exception", "%s(%s=%s): %s: %s" % (name, arg, vname, type(e).__name__, e))
                    error = e
                R.transition()
                R.state("wrong", name, arg, vname)
                R.outcome(type(error).__name__ if error else "accepted")
                short = name.split(" (")[0]
                if error is None:
                    if (short, arg) in SIZED and vname in ("9", "11", "[]", "11 dates"):
                        R.fail("wrong:size", "%s(%s=%s) is accepted" % (name, arg, vname))
                    elif vname in NONSENSE and not (vname == "{}" and arg == "excluded") and short not in TAKES_ANYTHING and (short, arg) not in FLAGS:
                        R.fail("wrong:accepted", "%s(%s=%s) is accepted" % (name, arg, vname))
                    made = targets() if keep.__name__ == "<lambda>" and before is not None else made
                    _, call, right, keep = made[ti]
                elif not same_kept(before, keep()):
                    R.fail("wrong:changed", "%s(%s=%s) is refused after a change" % (name, arg, vname))
            # the same, with an argument left out or added
            if vi < len(right):
                arg = list(right)[vi]
                args = dict(right)
                del args[arg]
                try:
                    call(**args)
                except ALLOWED:
                    pass
                args = dict(right)
                args["no_such_argument"] = 1
                code, _ = refused_by(lambda: call(**args))
                if not code and short not in ("as_int64", "axis item", "axis equal", "item", "tide", "admittance flag", "dynamic flag") and not short.startswith(("dynamic", "setstate")):
                    R.fail("wrong:argument", "%s with an argument that does not exist" % name)
            R.trace()


def palette_value(values, i):
    v = values[i][1]
    return iter([1.0, 2.0]) if values[i][0] == "iterator" else v


def same_kept(a, b):
    if isinstance(a, tuple):
        return same_full(a, b)
    return a == b


# ------------------------------------------------------------------ lifetimes
def lifetimes():
    """Objects taken from others are used after these are gone, in every order
    in which they can be."""
    def scenario(order):
        o = {}
        o["axis"] = CORE.Axis(LON, is_circular=True)
        o["cart"] = TM.CartesianComplex128(o["axis"], CORE.Axis(LAT))
        o["cart"].add_constituent("M2", wave(size("cartesian"), 0))
        o["lon"] = o["cart"].lon()
        o["index"] = CORE.mesh.Index(VLON, VLAT, TRI)
        o["lgp"] = TM.LGP1Complex64(o["index"], TRI)
        o["lgp"].add_constituent("S2", wave(9, 1))
        o["taken"] = o["lgp"].index()
        o["vertices"] = o["taken"].lon()
        o["table"] = PYFES.WaveTable(MAIN)
        o["wave"] = o["table"].find("M2")
        o["iterator"] = iter(o["table"])
        o["first"] = next(o["iterator"])
        o["values"] = o["table"].values()
        o["acc"] = o["cart"].accelerator()
        o["accl"] = o["lgp"].accelerator(CORE.kMeeus, 5.0)
        o["settings"] = CORE.Settings(excluded=[C["M2"]])
        o["excluded"] = o["settings"].excluded
        o["result"] = o["lgp"].interpolate(PLON, PLAT)

        def use():
            if "axis" in o:
                assert len(o["axis"]) == 12
            if "lon" in o:
                assert len(o["lon"]) == 12 and o["lon"][1] == 30
            if "cart" in o:
                assert o["cart"].interpolate(PLON, PLAT)[1][0] != 0
            if "lgp" in o:
                assert o["lgp"].interpolate(PLON, PLAT)[1][1] != 0
            for k in ("index", "taken"):
                if k in o:
                    assert same(o[k].lat(), VLAT)
            if "vertices" in o:
                assert same(o["vertices"], VLON)
            if "wave" in o:
                o["wave"].tide = 5j
                assert o["wave"].name() == "M2" and o["wave"].tide == 5j
                if "table" in o:
                    assert o["table"].find("M2") is o["wave"] and o["table"][C["M2"]].tide == 5j
            if "iterator" in o:
                rest = [w.name() for w in o["iterator"]]
                assert len(rest) in (len(MAIN) - 1, 0), rest
            if "first" in o:
                assert o["first"].period() > 0
            if "values" in o:
                assert len([w.freq for w in o["values"]]) == len(MAIN)
            if "excluded" in o:
                assert o["excluded"] == [C["M2"]]
            if "result" in o:
                assert o["result"][1].shape == (10,)
        for k in order:
            del o[k]
            gc.collect()
            use()
        R.transition(len(order))

    groups = [["cart", "axis", "lon", "acc"], ["lgp", "index", "taken", "vertices"], ["table", "wave", "iterator", "first"], ["table", "values", "iterator", "wave"], ["lgp", "accl", "result", "taken"], ["settings", "excluded", "table", "first"]]
    for g in groups:
        for order in itertools.permutations(g):
            if not R.begin("lifetimes"):
                continue
            R.note(" ".join(order))
            try:
                scenario(order)
            except Exception as e:  # noqa: BLE001
                R.fail("lifetimes", "%s: %s: %s" % (order, type(e).__name__, e))
            R.state("lifetimes", order)
            R.trace()
    # results are independent of what made them
    for spec in SPECS:
        if not R.begin("results"):
            continue
        b, r = models(spec)
        one = b.interpolate(PLON, PLAT)
        saved = {int(k): v.copy() for k, v in one[0].items()}
        for v in one[0].values():
            v[...] = 0
        one[1][...] = 9
        two = b.interpolate(PLON, PLAT)
        if any(not same(saved[int(k)], v) for k, v in two[0].items()):
            R.fail("results", "%s: changing a result changes the model" % (spec,))
        w = wave(size(spec[0]), 0)
        b.add_constituent("M2", w)
        before = full(b)
        w[...] = 0
        if not same_full(before, full(b)):
            R.fail("results", "%s: changing the array given changes the model" % (spec,))
        d = b.dynamic
        d.append(C["M2"])
        if b.dynamic != []:
            R.fail("results", "%s: changing the list changes the model" % (spec,))
        R.trace()


def main():
    tide()
    layouts()
    interpolations()
    model_operations()
    constructors()
    table_operations()
    table_names()
    analysis()
    angles()
    settings()
    axes()
    wrong()
    lifetimes()
    R.finish()


main()
