"""C29: a date designates the same instant however it is given. The bindings
are the real ones; instants are compared with the calendar of Python and with
rational arithmetic."""
import calendar
import ctypes
import datetime
import os
import sys
import warnings
from fractions import Fraction

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpr  # noqa: E402
from pybind import CORE, FORMULAE, LIB, PYFES, PYLIB  # noqa: E402

warnings.simplefilter("ignore")
R = vpr.Reporter()
DM = CORE.datemanip
D = datetime.datetime
FIRST, LAST = -(2**31) + 1, 2**31 - 1
E0 = D(1970, 1, 1)
PER = {"D": Fraction(86400), "h": Fraction(3600), "m": Fraction(60), "s": Fraction(1), "ms": Fraction(1, 10**3), "us": Fraction(1, 10**6), "ns": Fraction(1, 10**9),
       "ps": Fraction(1, 10**12), "fs": Fraction(1, 10**15), "as": Fraction(1, 10**18)}


def micro(d):
    """Microseconds since 1970, from the calendar"""
    return (((d.toordinal() - 719163) * 24 + d.hour) * 3600 + d.minute * 60 + d.second) * 10**6 + d.microsecond


def close(got, want):
    """Within the two roundings a conversion to a number takes; the fraction of
    a second is added to the seconds"""
    w = float(want)
    return abs(Fraction(got) - want) <= 2 * Fraction(float(numpy.spacing(max(1.0, abs(w)))))


def check(d, what):
    u = micro(d)
    try:
        i, f = DM.as_int64(d), DM.as_float64(date=d)
    except ValueError:
        if FIRST <= u // 10**6 <= LAST:
            R.fail("datetime:refused", "%s: %r" % (what, d))
        else:
            R.outcome("refused")
        return
    R.transition(2)
    if type(i) is not int or i != u:
        R.fail("datetime:microseconds", "%s: %r is %r instead of %d" % (what, d, i, u))
    if type(f) is not float or not close(f, Fraction(u, 10**6)):
        R.fail("datetime:seconds", "%s: %r is %r instead of %d us" % (what, d, f, u))


class Sub(D):
    pass


def datetimes():
    # every day a date can be given for, at a time of the day that changes
    start, end = datetime.date(1901, 12, 14).toordinal(), datetime.date(2038, 1, 19).toordinal()
    for block in range(start, end, 64):
        if not R.begin("days"):
            continue
        for o in range(block, min(block + 64, end)):
            d = D.fromordinal(o)
            check(d, "day")
            s = o * 7919 % 86400
            check(d.replace(hour=s // 3600, minute=s // 60 % 60, second=s % 60, microsecond=o * 104729 % 10**6), "day")
            if R.thorough:
                for s in range(0, 86400, 3599):
                    check(d + datetime.timedelta(seconds=s, microseconds=s * 11), "day")
        R.state("days", block)
        R.trace()
    # every second of days around which the calendar, the sign or the leap
    # seconds change
    days = [D(1969, 12, 31), D(1970, 1, 1), D(2000, 2, 29), D(2016, 12, 31)] + ([D(1901, 12, 14), D(1904, 2, 29), D(1999, 12, 31), D(2012, 6, 30), D(2038, 1, 18), D(1972, 1, 1)] if R.thorough else [])
    for d in days:
        for h in range(24):
            if not R.begin("seconds"):
                continue
            for s in range(3600):
                check(d.replace(hour=h, minute=s // 60, second=s % 60), "second")
            R.state("seconds", d, h)
            R.trace()
    # microseconds
    step = 1 if R.thorough else 13
    for d in (D(1970, 1, 1), D(1969, 12, 31, 23, 59, 59), D(2024, 5, 5, 12, 34, 56), D(1901, 12, 13, 20, 45, 53), D(2038, 1, 19, 3, 14, 6)):
        for block in range(0, 10**6, 25000):
            if not R.begin("microseconds"):
                continue
            for u in range(block, block + 25000, step):
                check(d.replace(microsecond=u), "microsecond")
            check(d.replace(microsecond=block + 24999), "microsecond")
            R.state("microseconds", d, block)
            R.trace()
    # the limits, years of all kinds, other classes
    some = [E0 + datetime.timedelta(seconds=x, microseconds=u) for x in (FIRST - 1, FIRST, FIRST + 1, LAST - 1, LAST, LAST + 1, -1, 0, 1) for u in (0, 1, 999999)]
    some += [D(y, m, 1 if k == 0 else calendar.monthrange(y, m)[1], 23 * k, 59 * k, 59 * k, 999999 * k) for y in list(range(1, 10000, 1 if R.thorough else 37)) + [1, 9999, 1600, 1700, 1900, 2000, 2100, 400] for m in range(1, 13) for k in (0, 1)]
    for block in range(0, len(some), 200):
        if not R.begin("limits"):
            continue
        for d in some[block:block + 200]:
            check(d, "limit")
            check(Sub(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond), "subclass")
            check(d.replace(fold=1), "fold")
        R.state("limits", block)
        R.trace()
    # those that designate no instant, or another one
    zones = [datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(-datetime.timedelta(hours=8))]
    wrong = [None, 0, 1.5, "2000-01-01", b"2000", datetime.date(2000, 1, 1), datetime.time(1), datetime.timedelta(1), object(), D, [], [D(2000, 1, 1)], numpy.datetime64("2000-01-01", "us"), numpy.array(["2000-01-01"], "M8[s]"),
             float("nan"), numpy.datetime64("NaT")] + [D(2000, 1, 1, tzinfo=z) for z in zones]
    for w in wrong:
        if not R.begin("wrong"):
            continue
        what = "%r" % (w,)
        calls = [lambda: DM.as_int64(w), lambda: DM.as_float64(w), lambda: CORE.AstronomicAngle().update(w, 32),
                 lambda: CORE.WaveTable(["M2"]).tide_from_mapping(w, 32, numpy.ones((1, 1), "c16"))]
        for k, f in enumerate(calls):
            R.transition()
            try:
                r = f()
            except (ValueError, TypeError):
                continue
            except Exception as e:  # noqa: BLE001
                R.fail("wrong:exception", "%s: %s: %s" % (what, type(e).__name__, e))
                continue
            R.fail("wrong:accepted", "%s is accepted by %d: %r" % (what, k, r))
        R.state("wrong", what)
        R.trace()


# ------------------------------------------------------------------ datetime64
def epoch(a):
    o = numpy.full(max(1, a.size), 123.0)
    r = PYLIB.vr_epoch(ctypes.py_object(a), o.ctypes.data_as(ctypes.c_void_p))
    return r, o[:a.size]


def counts(unit):
    """Numbers of units: all near zero, the powers, what dates are made of"""
    v = set(range(-400, 401))
    for k in range(63):
        for d in (-1, 0, 1):
            v |= {2**k + d, -(2**k) + d}
    for k in range(19):
        for d in (-1, 0, 1, 3 * 10**k):
            v |= {10**k + d, -(10**k) + d}
    per = PER[unit]
    for s in list(range(FIRST, LAST, 86400 * (29 if R.thorough else 411) + 3661)) + [FIRST, LAST]:
        n = Fraction(s) / per
        for d in (0, 1, -1, n.numerator * 7 % 999):
            v.add(int(n) + d)
    return sorted(x for x in v if -(2**63) < x < 2**63)


def strided(a):
    b = numpy.zeros(2 * a.size, a.dtype)
    b[::2] = a
    return b[::2]


def unaligned(a):
    raw = numpy.zeros(a.nbytes + 1, "u1")
    v = raw[1:].view(a.dtype)
    v[...] = a
    return v


class SubArray(numpy.ndarray):
    pass


def arrays():
    shapes = {"same": lambda a: a, "copy": lambda a: a.copy(), "strided": strided, "backwards": lambda a: a[::-1].copy()[::-1], "unaligned": unaligned, "subclass": lambda a: a.view(SubArray),
              "record": lambda a: numpy.rec.fromarrays([a, numpy.arange(a.size)], names="d,i")["d"], "broadcast": lambda a: numpy.broadcast_to(a[:1], a.shape), "matrix": lambda a: numpy.stack([a, a, a])[1],
              "column": lambda a: numpy.stack([a, a, a], axis=1)[:, 2]}
    for unit in PER:
        values = counts(unit)
        for block in range(0, len(values), 100):
            if not R.begin("units"):
                continue
            v = values[block:block + 100]
            # what is not a time among the others
            a = numpy.array(v + [-(2**63)] + v[:2], dtype="i8").view("M8[%s]" % unit)
            for sname, f in shapes.items():
                x = f(a)
                r, o = epoch(x)
                want = x.view("i8") if sname not in ("record",) else a.view("i8")
                R.transition(len(v))
                if r:
                    R.fail("units:refused", "%s %s: %s" % (unit, sname, LIB.vp_error()))
                    continue
                for g, n in zip(o.tolist(), numpy.array(want).tolist()):
                    if n == -(2**63):
                        if g == g:
                            R.fail("units:nat", "%s %s: NaT is %r" % (unit, sname, g))
                    elif not (g == g and close(g, n * PER[unit])):
                        R.fail("units:value", "%s %s: %d is %r" % (unit, sname, n, g))
            R.state("units", unit, block)
            R.trace()
    refused = {"M8[%s]" % u: "units" for u in ("Y", "M", "W", "2s", "10D", "25ms", "1000us", "7h", "3ns")}
    refused.update({"m8[s]": "", "f8": "", "i8": "", "i4": "", ">M8[s]": "", ">M8[ns]": "", "O": "", "U4": "", "?": "", "c16": "", "u8": "", "M8": ""})
    for dt in refused:
        for n in (0, 1, 5):
            if not R.begin("others"):
                continue
            a = numpy.zeros(n, dt)
            r, o = epoch(a)
            if not r:
                # read as what it is, or refused
                try:
                    want = a.astype("M8[us]").astype("i8") / 1e6
                    ok = numpy.dtype(dt).kind == "M" and numpy.array_equal(o, want, equal_nan=True)
                except Exception:  # noqa: BLE001
                    ok = False
                if not ok and not (n == 0 and numpy.dtype(dt).kind == "M"):
                    R.fail("others:accepted", "%s: %r" % (dt, o))
            R.transition()
            R.state("others", dt, n)
            R.trace()
    for shape in [(), (1, 1), (2, 3), (3, 1), (1, 3), (0, 2), (2, 2, 2)]:
        if not R.begin("others"):
            continue
        a = numpy.zeros(shape, "M8[s]")
        r, o = epoch(a)
        if not r and a.size:
            R.fail("others:shape", "%r is accepted: %r" % (shape, o))
        R.state("shape", shape)
        R.trace()


# ------------------------------------------------------------------ end to end
def everywhere():
    """The functions of the package give the same for the same instants"""
    lon, lat = numpy.arange(4) * 90.0, numpy.array([-10.0, 10.0])
    model = CORE.tidal_model.CartesianComplex128(CORE.Axis(lon, is_circular=True), CORE.Axis(lat))
    for k, n in enumerate(("M2", "S2", "N2", "K2", "K1", "O1", "Q1", "2N2")):
        model.add_constituent(n, numpy.full(8, complex(k + 1, 2 - k)))
    table = ["M2", "S2", "K1", "O1", "M4", "Mf", "S1"]
    wave = numpy.arange(7) * (1 + 0.5j) + 1
    # whole days are the same in all units
    instants = [D(1972, 1, 1), D(1999, 12, 31), D(2000, 1, 1), D(2000, 2, 29), D(2012, 6, 30), D(2012, 7, 1), D(2038, 1, 18)]
    instants += [D(2000, 1, 1, 12), D(2016, 12, 31, 23), D(2004, 2, 29, 23, 59), D(2010, 10, 10, 10, 10, 10), D(2010, 10, 10, 10, 10, 10, 123000), D(2010, 10, 10, 10, 10, 10, 123456), D(1985, 6, 30, 23, 59, 59, 999999)]
    for fi, form in enumerate(FORMULAE):
        for d in instants:
            if not R.begin("everywhere"):
                continue
            want = None
            base = numpy.datetime64(d, "us")
            leap = PYFES.get_leap_seconds(d)
            results = {}
            a = PYFES.AstronomicAngle(form)
            a.update(d)
            b = CORE.AstronomicAngle(form)
            b.update(d, int(leap[0]))
            fields = [x for x in dir(b) if isinstance(getattr(b, x), float)]
            R.transition(2)
            if [getattr(a, x) for x in fields] != [getattr(b, x) for x in fields] or not fields:
                R.fail("everywhere:angles", "%s %s: the angles of the package differ" % (form, d))
            t = PYFES.WaveTable(table)
            t.compute_nodal_corrections(b)
            vu = numpy.array([w.vu() for w in t])
            f = numpy.array([w.f for w in t])
            tide = sum(w * g * numpy.exp(1j * x).conjugate() for w, g, x in zip(wave, f, vu)).real
            grid = t.tide_from_mapping(d, int(leap[0]), wave.reshape(7, 1), form)
            grid = grid if wave.size == grid.size else t.tide_from_mapping(d, int(leap[0]), wave.reshape(1, 7), form)
            for unit in PER:
                try:
                    x = numpy.array([base]).astype("M8[%s]" % unit)
                except Exception:  # noqa: BLE001
                    continue
                lossless = x.astype("M8[us]")[0] == base and Fraction(int(x.view("i8")[0])) * PER[unit] == Fraction(micro(d), 10**6)
                if not lossless:
                    R.outcome("not in this unit")
                    continue
                what = "%s %s in %s" % (form, d, unit)
                R.transition(4)
                if int(PYFES.get_leap_seconds(x)[0]) != int(leap[0]):
                    R.fail("everywhere:leap", what)
                g, v = t.compute_nodal_modulations(x, leap, form)
                if not (numpy.allclose(g[:, 0], f, rtol=1e-10, atol=0) and numpy.allclose(numpy.exp(1j * v[:, 0]), numpy.exp(1j * vu), atol=1e-9)):
                    R.fail("everywhere:modulations", what)
                results[unit] = (t.tide_from_tide_series(x, leap, wave, form)[0], PYFES.evaluate_tide(model, x, numpy.array([33.0]), numpy.array([4.0]), settings=PYFES.Settings(astronomic_formulae=form)))
                if want is None:
                    want = results[unit]
                if abs(results[unit][0] - want[0]) > 1e-8:
                    R.fail("everywhere:series", "%s: %r instead of %r" % (what, results[unit][0], want[0]))
                for p, q in zip(results[unit][1], want[1]):
                    if not abs(p[0] - q[0]) <= 1e-8:
                        R.fail("everywhere:tide", "%s: %r instead of %r" % (what, p, q))
            for kind in (PYFES.WaveTable, PYFES.WaveDict):
                # lists of datetimes, this one at each place
                for others, pos in (([], 0), ([D(2003, 3, 4, 5, 6, 7)], 0), ([D(2003, 3, 4, 5, 6, 7)], 1), ([D(1969, 12, 31, 23, 59, 59, 500000), D(2003, 3, 4, 5, 6, 7, 80)], 1)):
                    ds = others[:pos] + [d] + others[pos:]
                    k = kind(table)
                    what = "%s %s as %s of %d datetimes, %s" % (form, d, pos, len(ds), kind.__name__)
                    R.transition()
                    try:
                        g, v = k.compute_nodal_modulations(ds, numpy.full(len(ds), leap[0], leap.dtype), form)
                    except Exception as e:  # noqa: BLE001
                        R.fail("everywhere:list", "%s: %s" % (what, e))
                        continue
                    if not (numpy.allclose(g[:, pos], f, rtol=1e-10, atol=0) and numpy.allclose(numpy.exp(1j * v[:, pos]), numpy.exp(1j * vu), atol=1e-9)):
                        R.fail("everywhere:list", what)
                # with a time zone among them: refused
                ds = [d, d.replace(tzinfo=datetime.timezone.utc)]
                for x in (ds, ds[::-1]):
                    try:
                        kind(table).compute_nodal_modulations(x, numpy.full(2, leap[0], leap.dtype), form)
                        R.fail("everywhere:zone", "%s %r: accepted" % (kind.__name__, x))
                    except Exception:  # noqa: BLE001
                        R.outcome("zone refused")
            if "us" not in results:
                R.fail("everywhere:us", "%s" % d)
            else:
                if abs(results["us"][0] - tide) > 1e-6:
                    R.fail("everywhere:sum", "%s %s: %r instead of %r" % (form, d, results["us"][0], tide))
            R.state("everywhere", fi, d)
            R.trace()
    # what is no time has no tide, the others keep theirs
    for pos in range(5):
        for unit in ("D", "s", "us", "ns"):
            for tol in (0.0, 3600.0, 1e12):
                if not R.begin("nat"):
                    continue
                x = numpy.array(["2000-01-01"] * 5, "M8[D]").astype("M8[%s]" % unit)
                whole = PYFES.evaluate_tide(model, x, numpy.full(5, 33.0), numpy.full(5, 4.0), settings=PYFES.Settings(time_tolerance=tol), num_threads=1)
                x[pos] = numpy.datetime64("NaT")
                what = "NaT at %d, %s, tolerance %g" % (pos, unit, tol)
                try:
                    r = PYFES.evaluate_tide(model, x, numpy.full(5, 33.0), numpy.full(5, 4.0), settings=PYFES.Settings(time_tolerance=tol), num_threads=1)
                except ValueError:
                    R.outcome("NaT refused")
                    continue
                R.transition()
                keep = numpy.arange(5) != pos
                if not (numpy.isnan(r[0][pos]) and numpy.isnan(r[1][pos])):
                    R.fail("nat:value", "%s: %r %r" % (what, r[0], r[1]))
                if not all(numpy.array_equal(p[keep], q[keep]) for p, q in zip(r, whole)):
                    R.fail("nat:others", "%s: %r instead of %r" % (what, r, whole))
                R.state("nat", pos, unit, tol)
                R.trace()


datetimes()
arrays()
everywhere()
R.finish()
