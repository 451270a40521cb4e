"""C30: conversion of meshes (fes_convert_mesh). The command is the real one, on
a stand-in of netCDF4 that reads and writes; the file converted is loaded by the
real configuration module into a real LGP2 model (pyfes_core.py)."""
import importlib
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import warnings

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpr  # noqa: E402
import pyfes_core as stand_in  # noqa: E402

warnings.simplefilter("ignore")
R = vpr.Reporter()
REPO = os.environ.get("VP_REPO", "/repo")
SOURCE = os.path.join(REPO, "src", "python", "pyfes")
ROOT = tempfile.mkdtemp(prefix="vp-c30-")
PACKAGE = os.path.join(ROOT, "pyfes")
shutil.copytree(SOURCE, PACKAGE, ignore=lambda d, names: [n for n in names if not (n.endswith(".py") or n.startswith("console"))])
open(os.path.join(PACKAGE, "__init__.py"), "w").close()
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
CORE = stand_in.install("pyfes")
DATA = os.path.join(ROOT, "data")
os.mkdir(DATA)


# ------------------------------------------------- netCDF4, reading and writing
FILL = {"f": 9.969209968386869e36, "i": -2147483647}


class WVariable(stand_in.Variable):
    """A variable of a file being written."""

    def __init__(self, name, d):
        super().__init__(name, d)

    def __setattr__(self, k, v):
        if k.startswith("_") or k in ("name", "dimensions", "dtype", "shape", "ndim", "size"):
            object.__setattr__(self, k, v)
        else:
            self._d["attrs"][k] = v

    def setncattr(self, k, v):
        self._d["attrs"][k] = v

    def setncatts(self, d):
        self._d["attrs"].update(d)

    def __setitem__(self, k, v):
        v = numpy.ma.asarray(v)
        mask = numpy.broadcast_to(numpy.ma.getmaskarray(v), numpy.shape(self._d["data"][k]))
        self._d["data"][k] = numpy.ma.array(numpy.broadcast_to(v.filled(0) if v.dtype.kind in "fiu" else v, mask.shape).astype(self.dtype), mask=mask)


Dimension = stand_in.Dimension


class Dataset(stand_in.Dataset):
    def __init__(self, filename, mode="r", **kwargs):
        self._mode = mode
        if mode in ("r", "rb"):
            return super().__init__(filename, mode)
        if mode not in ("w", "x"):
            raise ValueError("mode")
        if mode == "x" and os.path.exists(filename):
            raise OSError("exists")
        with open(filename, "wb") as f:  # cleared at once, as the library does
            f.write(b"")
        self._path = filename
        self.variables, self.dimensions, self._content = {}, {}, {}
        self._attrs = {}
        self._open = True
        stand_in.Dataset.opened += 1

    def createDimension(self, dimname, size=None):
        if dimname in self.dimensions:
            raise RuntimeError("NetCDF: String match to name in use")
        self.dimensions[dimname] = Dimension(dimname, 0 if size is None else int(size))
        return self.dimensions[dimname]

    def createVariable(self, varname, datatype, dimensions=(), **kwargs):
        if varname in self.variables:
            raise RuntimeError("NetCDF: String match to name in use")
        if isinstance(dimensions, str):
            dimensions = (dimensions,)
        unknown = set(kwargs) - {"compression", "zlib", "complevel", "shuffle", "fletcher32", "contiguous", "chunksizes", "endian", "fill_value", "least_significant_digit"}
        if unknown:
            raise TypeError(unknown)
        if kwargs.get("least_significant_digit") is not None:
            raise NotImplementedError("quantization")
        shape = tuple(len(self.dimensions[d]) for d in dimensions)
        t = numpy.dtype(datatype)
        self._content[varname] = dict(dims=tuple(dimensions), data=numpy.ma.array(numpy.full(shape, FILL[t.kind], t), mask=numpy.ones(shape, bool)), attrs={})
        self.variables[varname] = WVariable(varname, self._content[varname])
        return self.variables[varname]

    def setncattr(self, k, v):
        pass

    def sync(self):
        pass

    def close(self):
        if self._open and self._mode not in ("r", "rb"):
            with open(self._path, "wb") as f:
                pickle.dump(self._content, f)
        super().close()


sys.modules["netCDF4"].Dataset = Dataset
CONFIG = importlib.import_module("pyfes.config")


def command():
    for d in sorted(os.listdir(PACKAGE)):
        if d.startswith("console") and os.path.exists(os.path.join(PACKAGE, d, "fes_convert_mesh.py")):
            return importlib.import_module("pyfes.%s.fes_convert_mesh" % d)
    raise SystemExit("no fes_convert_mesh")


CONVERT = command()
assert CONVERT.__file__.startswith(ROOT) and CONFIG.__file__.startswith(ROOT)

# ---------------------------------------------------------------------- meshes
# names of the source files -> catalogue
NAMES = {n: n for n in ("S4 MKS2 R2 O1 Mm S2 M4 M3 Q1 Ssa P1 M8 N4 S1 K2 Mtm MN4 MSf MS4 N2 J1 T2 K1 M6 Sa Mu2 Mf M2 L2 2N2 Nu2").split()}
NAMES.update({"MSqm": "Msqm", "E2": "Eps2", "La2": "Lambda2"})


PAD = 120000


def mesh(kind):
    if kind == 3:  # the same as 0 after many vertices and nodes nothing refers to
        lon, lat, tri, codes, places = mesh(0)
        return (numpy.concatenate([numpy.linspace(20, 40, PAD), lon]), numpy.concatenate([numpy.linspace(-5, 5, PAD), lat]), (tri + PAD).astype("int32"), (codes + PAD).astype("int32"), [(30.0, 0.0)] * PAD + places)
    if kind == 0:
        lon, lat, tri = [-1.0, 1.0, 1.0, -1.0], [-1.0, -1.0, 1.0, 1.0], [[0, 1, 2], [0, 2, 3]]
    elif kind == 1:  # across the antimeridian, longitudes in [0, 360]
        lon, lat, tri = [179.0, 181.0, 180.0, 182.5], [10.0, 10.0, 11.5, 12.0], [[0, 1, 2], [1, 3, 2]]
    else:
        lon = [0.0] + [2 * numpy.cos(a) for a in numpy.arange(5) * 2 * numpy.pi / 5]
        lat = [40.0] + [40 + 2 * numpy.sin(a) for a in numpy.arange(5) * 2 * numpy.pi / 5]
        tri = [[0, 1 + i, 1 + (i + 1) % 5] for i in range(5)]
    codes, ids = [], {}
    for t in tri:
        row = []
        for j in range(3):
            for key in ((t[j], t[j]), tuple(sorted((t[j], t[(j + 1) % 3])))):
                row.append(ids.setdefault(key, len(ids)))
        codes.append(row)
    place = {}
    for (a, b), i in ids.items():
        place[i] = ((lon[a] + lon[b]) / 2, (lat[a] + lat[b]) / 2)
    return numpy.array(lon), numpy.array(lat), numpy.array(tri, "int32"), numpy.array(codes, "int32"), [place[i] for i in range(len(ids))]


def var(dims, data, **attrs):
    return dict(dims=dims, data=data, attrs=attrs)


def values(w, n, mask):
    """Amplitude (metres) and phase (degrees) of a source."""
    k = sum(map(ord, w))
    i = numpy.arange(n)
    amp = 0.01 + ((i * 7 + k) % 13) * 0.37
    pha = (i * 53 + k * 11) % 360 + 0.5
    ma, mp = numpy.zeros(n, bool), numpy.zeros(n, bool)
    if mask in ("amplitude", "both"):
        ma[k % n] = True
    if mask in ("phase", "both"):
        mp[(k + 2) % n] = True
    return amp, pha, ma, mp


def source(w, kind, bits, mask, records, tag="", folder="", change=None):
    lon, lat, tri, codes, places = mesh(kind)
    n = len(places)
    amp, pha, ma, mp = values(w, n, mask)
    t = numpy.float32 if bits == 32 else numpy.float64

    def stack(x, m):
        rows = [x] + [x * 0 + 77 + r for r in range(records - 1)]
        return numpy.ma.array(numpy.array(rows, t), mask=[m] * records)
    content = dict(lon=var(("vertex",), lon, units="degrees_east"), lat=var(("vertex",), lat, units="degrees_north"), element=var(("t", "p"), tri))
    content["C-LGP2"] = var(("t", "n"), codes)
    content["a_eta_LGP2"] = var(("time", "nodes"), stack(amp, ma), units="m")
    content["G_eta_LGP2"] = var(("time", "nodes"), stack(pha, mp), units="degrees")
    if change:
        change(content)
    d = os.path.join(DATA, folder)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, w + tag + ".nc")
    with open(path, "wb") as f:
        pickle.dump(content, f)
    return path


def convert(paths, out):
    old = sys.argv
    sys.argv = ["fes_convert_mesh"] + list(paths) + [out]
    opened = Dataset.opened
    try:
        CONVERT.main()
        return None
    except SystemExit as e:
        return None if not e.code else e
    except Exception as e:  # noqa: BLE001
        return e
    finally:
        sys.argv = old
        stand_in.Dataset.opened = opened


OUT = os.path.join(ROOT, "out.nc")


def load(ws, kind, missing_ok):
    return CONFIG.LGP(path=OUT, codes="lgp2", type="lgp2", constituents=list(ws)).load()


def check(ws, kind, bits, mask, records=1, tag="", folder="", order=None):
    """Converts the waves ws (names of the sources)."""
    what = "waves %s, mesh %d, %d bits, masks %s, %d records, names *%s" % (" ".join(ws), kind, bits, mask, records, tag)
    R.note(what)
    paths = [source(w, kind, bits, mask, records, tag, folder) for w in ws]
    if os.path.exists(OUT):
        os.unlink(OUT)
    e = convert(paths, OUT)
    R.transition()
    R.trace()
    if e is not None:
        R.fail("refused", "%s: refused, %s: %s" % (what, type(e).__name__, e))
        return
    wanted = [NAMES[w] for w in ws]
    try:
        model = load(wanted, kind, mask != "none")
    except Exception as e:  # noqa: BLE001
        R.fail("not-loaded", "%s: the file converted is refused, %s: %s" % (what, type(e).__name__, e))
        return
    with open(OUT, "rb") as f:
        written = pickle.load(f)
    extra = sorted(k for k in written if k.endswith("_amplitude") and k[:-10] not in wanted)
    if extra:
        R.fail("other-waves", "%s: the file converted holds %s" % (what, extra))
    for w in ws:
        for part in ("amplitude", "phase"):
            v = written["%s_%s" % (NAMES[w], part)]
            if v["attrs"].get("units") not in ({"cm"} if part == "amplitude" else {"degrees", "degree"}):
                R.fail("units", "%s: %s of %s in %r" % (what, part, w, v["attrs"].get("units")))
    for part, want in (("lon", mesh(kind)[0]), ("lat", mesh(kind)[1])):
        got = numpy.asarray(written[part]["data"], "float64") if part in written else numpy.zeros(0)
        if got.shape != want.shape or (numpy.abs(got - want) > 1e-9).any():
            R.fail("vertices", "%s: %s of the vertices %s instead of %s" % (what, part, got, want))
    places = mesh(kind)[4]
    tri, codes, lon, lat = mesh(kind)[2], mesh(kind)[3], mesh(kind)[0], mesh(kind)[1]
    got_ids = sorted(stand_in.name(i) for i in model.identifiers())
    if got_ids != sorted(wanted):
        R.fail("waves", "%s: the model holds %s" % (what, got_ids))
        return
    for k in range(len(tri)):
        for b in ((1 / 3., 1 / 3., 1 / 3.), (0.6, 0.2, 0.2), (0.1, 0.3, 0.6)):
            x = sum(b[j] * lon[tri[k][j]] for j in range(3))
            y = sum(b[j] * lat[tri[k][j]] for j in range(3))
            basis = [b[0] * (2 * b[0] - 1), 4 * b[0] * b[1], b[1] * (2 * b[1] - 1), 4 * b[1] * b[2], b[2] * (2 * b[2] - 1), 4 * b[2] * b[0]]
            got = interpolate(model, x, y)
            for w in ws:
                amp, pha, ma, mp = values(w, len(places), mask)
                h = 100 * amp * numpy.exp(1j * numpy.radians(pha))
                h[ma | mp] = complex(numpy.nan, numpy.nan)
                want = sum(basis[j] * h[codes[k][j]] for j in range(6))
                g = got[NAMES[w]]
                R.transition()
                R.state(w, kind, mask, k, round(g.real, 3) if g == g else "nan")
                ok = (g != g) if want != want else abs(g - want) <= 2e-3
                if not ok:
                    R.fail("value", "%s: %s at (%.3f,%.3f) is %s instead of %s" % (what, w, x, y, g, want))
                    return


def interpolate(model, x, y):
    return {stand_in.name(k): complex(v[0]) for k, v in model.interpolate([x], [y])[0].items()}


# ------------------------------------------------------------------- scenarios
def singles():
    for w in sorted(NAMES):
        for kind, bits, mask in itertools.product(range(3), (32, 64), ("none", "amplitude", "phase", "both")):
            if R.begin("single"):
                check([w], kind, bits, mask)
                if w == "M2" and kind == 0:
                    R.sample("one file of %s, mesh %d, %d bits, masks: %s" % (w, kind, bits, mask))


def many():
    """Meshes of more than 100 000 vertices and nodes."""
    for ws in (["M2"], ["K1", "La2"], ["MSqm", "S2", "E2"]):
        for bits, mask in itertools.product((32, 64), ("none", "both")):
            if R.begin("many nodes"):
                check(ws, 3, bits, mask)


def subsets():
    fam = ["O1", "M2", "La2", "MSqm", "E2", "2N2", "S2"]
    for n in range(2, (len(fam) if R.thorough else 4) + 1):
        for c in itertools.combinations(fam, n):
            if not R.begin("subsets"):
                continue
            for p in itertools.permutations(c):
                if n > 3 and (p.index(min(p)) + p.index(max(p))) % 3 and not (R.thorough and n < 6):
                    continue
                if n > 5 and hash_(p) % 29:
                    continue
                check(list(p), hash_(p) % 3, 64 if n % 2 else 32, "both" if hash_(p) % 2 else "none")
    if R.begin("subsets"):
        check(sorted(NAMES), 2, 64, "both")
        check(sorted(NAMES, reverse=True), 1, 32, "none")
        R.sample("all %d waves in one file, in two orders" % len(NAMES))
    # all pairs, in both orders
    for a in sorted(NAMES):
        if not R.begin("pairs"):
            continue
        for b in sorted(NAMES):
            if a != b:
                check([a, b], 0, 32, "none")


def hash_(p):
    h = 7
    for w in p:
        for ch in w:
            h = (h * 31 + ord(ch)) % 1000003
    return h


def names():
    for tag in ("", ".mesh", ".FES2022.v2", ".2"):
        for folder in ("", "a.b", "K1.old/x", "with space"):
            for records in (1, 2, 3):
                if R.begin("names"):
                    check(["M2", "MSqm"], 0, 64, "none", records, tag, folder)
                    check(["O1", "La2"], 1, 32, "both", records, tag, folder)


def edits(kind):
    """Every way a second mesh may differ by one entry."""
    lon, lat, tri, codes, places = mesh(kind)
    for key in ("lon", "lat"):
        for i in list(range(len(lon)))[-8:]:
            for d in (1e-9, 0.25, 360.0, float("nan")):
                def change(c, key=key, i=i, d=d):
                    c[key]["data"] = c[key]["data"].copy()
                    c[key]["data"][i] += d
                yield "%s %d moved by %g" % (key, i, d), change
    for key, a in (("element", tri), ("C-LGP2", codes)):
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                def change(c, key=key, i=i, j=j):
                    c[key]["data"] = c[key]["data"].copy()
                    c[key]["data"][i, j] = (c[key]["data"][i, j] + 1) % (3 if c[key]["data"][i, j] < PAD else PAD + 3)
                yield "%s %d,%d changed" % (key, i, j), change
        def fewer(c, key=key):
            c[key]["data"] = c[key]["data"][:-1].copy()
        yield key + " one row less", fewer
        def order(c, key=key):
            c[key]["data"] = c[key]["data"][::-1].copy()
        yield key + " in the reverse order", order
    for key in ("lon", "lat"):
        def fewer(c, key=key):
            c[key]["data"] = c[key]["data"][:-1].copy()
        yield key + " one value less", fewer
    for key in ("lon", "lat", "element", "C-LGP2", "a_eta_LGP2", "G_eta_LGP2"):
        def gone(c, key=key):
            del c[key]
        yield key + " missing", gone
    for key in ("a_eta_LGP2", "G_eta_LGP2"):
        def fewer(c, key=key):
            c[key]["data"] = c[key]["data"][:, :-1].copy()
        yield key + " one node less", fewer


def different():
    for kind in range(4):
        for what, change in edits(kind):
            if not R.begin("different"):
                continue
            for where in range(3):
                ws = ["O1", "M2", "S2"]
                paths = [source(w, kind, 64, "none", 1, "." + str(k), "d", change if k == where else None) for k, w in enumerate(ws)]
                full = "mesh %d, file %d of 3: %s" % (kind, where, what)
                R.note(full)
                with open(OUT, "wb") as f:
                    f.write(b"what was there")
                e = convert(paths, OUT)
                R.transition()
                R.outcome("accepted" if e is None else "refused")
                if e is None:
                    try:
                        load(["O1", "M2", "S2"], kind, False)
                    except Exception:  # noqa: BLE001
                        R.outcome("refused when loaded")
                    R.fail("different", full + ": converted all the same")
                elif "node less" not in what and open(OUT, "rb").read() != b"what was there":
                    R.fail("overwritten", full + ": refused (%s), but the output is lost" % e)
            R.trace()


def unknown():
    for w in ("X9", "m2", "", "M2 ", "LaMbda2x", "Z0"):
        for where in range(2):
            if not R.begin("unknown"):
                continue
            ws = ["O1", "M2"]
            paths = [source(x, 0, 64, "none", 1) for x in ws]
            odd = source("M2", 0, 64, "none", 1, folder="odd")
            bad = os.path.join(os.path.dirname(odd), w + ".nc")
            os.replace(odd, bad)
            paths.insert(where, bad)
            with open(OUT, "wb") as f:
                f.write(b"what was there")
            e = convert(paths, OUT)
            R.transition()
            R.trace()
            R.note("file %r" % w)
            if e is None:
                with open(OUT, "rb") as f:
                    held = sorted(k for k in pickle.load(f) if k.endswith("_amplitude"))
                # another case of the name of a wave is either refused or that wave
                if not (w == "m2" and held == ["M2_amplitude", "O1_amplitude"]):
                    R.fail("unknown", "file %r converted as %s" % (w + ".nc", held))
            elif open(OUT, "rb").read() != b"what was there":
                R.fail("overwritten", "file %r refused, but the output is lost" % (w + ".nc"))
    if R.begin("unknown"):
        for paths in ([], [os.path.join(DATA, "absent.nc")]):
            with open(OUT, "wb") as f:
                f.write(b"what was there")
            e = convert(paths, OUT)
            R.transition()
            if e is None:
                R.fail("unknown", "%r converted" % (paths,))


def main():
    try:
        singles()
        many()
        subsets()
        names()
        different()
        unknown()
        R.finish()
    finally:
        shutil.rmtree(ROOT, ignore_errors=True)


main()
