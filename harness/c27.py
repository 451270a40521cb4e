"""C27: loading a configuration. The configuration module is the real one; the
models it builds are the real ones (through pyfes_core.py), compared with models
built directly from the values written in the files."""
import importlib
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import warnings

import numpy
import yaml

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpr  # noqa: E402
import pyfes_core as stand_in  # noqa: E402

warnings.simplefilter("ignore")
R = vpr.Reporter()
REPO = os.environ.get("VP_REPO", "/repo")
SOURCE = os.path.join(REPO, "src", "python", "pyfes")
ROOT = tempfile.mkdtemp(prefix="vp-c27-")
PACKAGE = os.path.join(ROOT, "pyfes")
os.mkdir(PACKAGE)
for f in os.listdir(SOURCE):
    if f.endswith(".py") and f != "__init__.py":
        shutil.copy(os.path.join(SOURCE, f), PACKAGE)
open(os.path.join(PACKAGE, "__init__.py"), "w").close()
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
CORE = stand_in.install("pyfes")
CONFIG = importlib.import_module("pyfes.config")
assert CONFIG.__file__.startswith(ROOT)
DATA = os.path.join(ROOT, "data")
os.mkdir(DATA)
TM = CORE.tidal_model


def save(name, variables):
    path = os.path.join(DATA, name)
    with open(path, "wb") as f:
        pickle.dump(variables, f)
    return path


def var(dims, data, **attrs):
    return dict(dims=dims, data=data, attrs=attrs)


# ------------------------------------------------------------------- files
LON = {"circular": numpy.arange(8) * 45.0, "part": numpy.arange(5) * 10.0 - 20}
UNITS = {"degree": True, "degrees": True, "deg": True, "Degrees": True, "radian": False, "radians": False, "rad": False}


def base(kind, **kw):
    s = dict(kind=kind, bits=(64, 64), order="lat lon", square=False, lon="part", lat="up", unit="degree", mask="none",
             dynamic=[], waves=["M2"], names="default", env="none", tide="tide", epsilon=None, distance=None,
             always_mask=True)
    s.update(kw)
    return s


def values(s, k, shape):
    """Amplitudes, phases (degrees) and mask of the k-th constituent."""
    i = numpy.arange(numpy.prod(shape)).reshape(shape)
    amp = 1.0 + (i * 7 % 11) * 0.5 + k
    pha = (i * 37 + 20 * k) % 360 + 0.25
    ma = numpy.zeros(shape, bool)
    mp = numpy.zeros(shape, bool)
    if s["mask"] in ("amplitude", "both"):
        ma.flat[3 + k] = True
    if s["mask"] in ("phase", "both"):
        mp.flat[1] = True
        mp.flat[i.size - 2] = True
    return amp, pha, ma, mp


def unit_of(s, k):
    return s["unit"] if isinstance(s["unit"], str) else s["unit"][k % len(s["unit"])]


def pack(s, k, amp, pha, ma, mp):
    """What the file holds."""
    unit = unit_of(s, k)
    p = pha if UNITS[unit] else numpy.radians(pha)
    fa = numpy.float32 if s["bits"][0] == 32 else numpy.float64
    fp = numpy.float32 if s["bits"][1] == 32 else numpy.float64
    a, p = amp.astype(fa), p.astype(fp)
    if s["mask"] == "nan":
        a.flat[2] = numpy.nan
    return numpy.ma.array(numpy.where(ma, 1e20, a).astype(fa), mask=ma), numpy.ma.array(numpy.where(mp, 1e20, p).astype(fp), mask=mp)


def wave(s, amp, pha, ma, mp):
    """The values declared."""
    w = amp * numpy.exp(1j * numpy.radians(pha))
    w = numpy.where(ma | mp, complex(numpy.nan, numpy.nan), w)
    if s["mask"] == "nan":
        w.flat[2] = complex(numpy.nan, numpy.nan)
    return w


def width(s):
    return 64 if s["bits"] == (32, 32) else 128


def names(s):
    if s["names"] == "default":
        return dict(lon="lon", lat="lat", amplitude="amplitude", phase="phase", codes="codes", triangle="triangle", lamp="{constituent}_amplitude", lpha="{constituent}_phase")
    return dict(lon="x", lat="y", amplitude="HA", phase="Hg", codes="nodes", triangle="faces", lamp="A-{constituent}", lpha="G({constituent})")


def axes(s):
    lon = LON[s["lon"]]
    n = len(lon) if s["square"] else len(lon) - 1
    lat = numpy.arange(n) * 10.0 - 20
    return lon, lat[::-1].copy() if s["lat"] == "down" else lat


def cartesian(s, tag):
    """Writes the files; returns the section of the configuration and a maker
    of the model expected."""
    lon, lat = axes(s)
    nm = names(s)
    section = dict(paths={})
    waves = []
    for k, c in enumerate(s["waves"]):
        amp, pha, ma, mp = values(s, k, (len(lon), len(lat)))
        fa, fp = pack(s, k, amp, pha, ma, mp)
        waves.append((c, wave(s, amp, pha, ma, mp)))
        dims = (nm["lon"], nm["lat"])
        order = s["order"].split()[k % len(s["order"].split())] if s["order"] in ("lat lon", "lon lat") else s["order"]
        first = s["order"].split()[0]
        if s["order"] == "mixed":
            first = ("lat", "lon")[k % 2]
        del order
        d2 = dims[::-1] if first == "lat" else dims
        t = (lambda x: x.T) if first == "lat" else (lambda x: x)
        content = {nm["lon"]: var((nm["lon"],), lon, units="degrees_east"), nm["lat"]: var((nm["lat"],), lat, units="degrees_north"),
                   nm["amplitude"]: var(d2, t(fa), units="cm"), nm["phase"]: var(d2, t(fp), units=unit_of(s, k))}
        content[nm["amplitude"]]["always_mask"] = content[nm["phase"]]["always_mask"] = s["always_mask"]
        section["paths"][c] = save("%s-%d.nc" % (tag, k), content)
    if s["names"] != "default":
        section.update(longitude="x", latitude="y", amplitude="HA", phase="Hg")
    if s["epsilon"] is not None:
        section["epsilon"] = s["epsilon"]
    common(s, section)

    def expected():
        cls = getattr(TM, "CartesianComplex%d" % width(s))
        m = cls(stand_in.Axis(lon, s["epsilon"] if s["epsilon"] is not None else 1e-6, True), stand_in.Axis(lat), getattr(CORE, "kTide" if s["tide"] == "tide" else "kRadial"), True)
        for c, w in waves:
            m.add_constituent(c, w.ravel())
        m.dynamic = [stand_in.parse(d) for d in s["dynamic"]]
        return m
    x = [v for v in lon] + [(lon[0] + lon[1]) / 2, lon[-1] + 22.5, lon[0] - 3, lon[2] + 1]
    y = [v for v in lat] + [(lat[0] + lat[1]) / 2, lat[-1] + 30, lat[1] + 1]
    grid = list(itertools.product(x, y))
    return section, expected, [p[0] for p in grid], [p[1] for p in grid]


MESH_LON = numpy.array([0.0, 10.0, 10.0, 0.0, 5.0, 15.0])
MESH_LAT = numpy.array([0.0, 0.0, 10.0, 10.0, 5.0, 5.0])
MESH = numpy.array([[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [1, 5, 2]], dtype="int32")


def lgp_codes(order):
    if order == 1:
        shuffle = numpy.array([3, 0, 5, 1, 4, 2])
        return shuffle[MESH].astype("int32"), 6
    edges, out = {}, []
    for t in MESH:
        row = []
        for j in range(3):
            a, b = int(t[j]), int(t[(j + 1) % 3])
            e = edges.setdefault((min(a, b), max(a, b)), 6 + len(edges))
            row += [a, e]
        out.append(row)
    return numpy.array(out, dtype="int32"), 6 + len(edges)


def lgp(s, tag):
    order = int(s["kind"][3])
    nm = names(s)
    codes, n = lgp_codes(order)
    content = {nm["lon"]: var(("vertices",), MESH_LON), nm["lat"]: var(("vertices",), MESH_LAT),
               nm["triangle"]: var(("triangles", "three"), MESH), nm["codes"]: var(("triangles", "per"), codes)}
    waves = []
    for k, c in enumerate(s["waves"]):
        amp, pha, ma, mp = values(s, k, (n,))
        fa, fp = pack(s, k, amp, pha, ma, mp)
        waves.append((c, wave(s, amp, pha, ma, mp)))
        content[nm["lamp"].format(constituent=c)] = var(("n",), fa, units="cm")
        content[nm["lpha"].format(constituent=c)] = var(("n",), fp, units=unit_of(s, k))
    # not declared
    content[nm["lamp"].format(constituent="N2")] = var(("n",), numpy.ones(n))
    content[nm["lpha"].format(constituent="N2")] = var(("n",), numpy.ones(n), units=unit_of(s, 0))
    for v in content.values():
        v["always_mask"] = s["always_mask"]
    section = dict(path=save("%s.nc" % tag, content), constituents=list(s["waves"]))
    if order != 1 or s["names"] != "default":
        section["type"] = s["kind"]
    if s["names"] != "default":
        section.update(longitude="x", latitude="y", amplitude=nm["lamp"], phase=nm["lpha"], codes="nodes", triangle="faces")
    if s["distance"] is not None:
        section["max_distance"] = s["distance"]
    common(s, section)

    def expected():
        cls = getattr(TM, "LGP%dComplex%d" % (order, width(s)))
        m = cls(stand_in.Index(MESH_LON, MESH_LAT, MESH), codes, getattr(CORE, "kTide" if s["tide"] == "tide" else "kRadial"), s["distance"] or 0.0)
        for c, w in waves:
            m.add_constituent(c, w)
        m.dynamic = [stand_in.parse(d) for d in s["dynamic"]]
        return m
    x, y = [], []
    for t in MESH:
        for u, v in ((1 / 3, 1 / 3), (0.2, 0.1), (0.1, 0.6)):
            a, b, c = t
            x.append(MESH_LON[a] + u * (MESH_LON[b] - MESH_LON[a]) + v * (MESH_LON[c] - MESH_LON[a]))
            y.append(MESH_LAT[a] + u * (MESH_LAT[b] - MESH_LAT[a]) + v * (MESH_LAT[c] - MESH_LAT[a]))
    x += list(MESH_LON) + [-1.0, 3.0, 40.0, 15.5]
    y += list(MESH_LAT) + [4.0, -0.5, 5.0, 5.0]
    return section, expected, x, y


def common(s, section):
    if s["dynamic"]:
        section["dynamic"] = list(s["dynamic"])
    env = s["env"]
    for k in [k for k in os.environ if k.startswith("VPT_")]:
        del os.environ[k]
    if env == "none":
        return

    def through(path):
        folder, name = os.path.split(path)
        if env == "one":
            os.environ["VPT_DIR"] = folder
            return "${VPT_DIR}/" + name
        if env == "nested":
            os.environ.update(VPT_A="${VPT_B}", VPT_B="${VPT_C}/" + os.path.basename(folder), VPT_C=os.path.dirname(folder))
            return "${VPT_A}/" + name
        stem, ext = os.path.splitext(name)
        os.environ.update(VPT_DIR=folder, VPT_EXT=ext[1:])
        return "${VPT_DIR}/" + stem + ".${VPT_EXT}"
    if "path" in section:
        section["path"] = through(section["path"])
    else:
        section["paths"] = {k: through(p) for k, p in section["paths"].items()}


def write(s, tag):
    return cartesian(s, tag) if s["kind"] == "cartesian" else lgp(s, tag)


def load(config, raw=None):
    path = os.path.join(ROOT, "config.yaml")
    with open(path, "w", encoding="utf-8") as f:
        f.write(raw if raw is not None else yaml.safe_dump(config, sort_keys=False))
    try:
        return CONFIG.load(path), ""
    except Exception as e:  # noqa: BLE001
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])


def same(got, want, x, y, tol):
    """Differences between two models."""
    if type(got) is not type(want):
        return "kind %s instead of %s" % (type(got).__name__, type(want).__name__)
    if got.tide_type != want.tide_type:
        return "tide type %s" % got.tide_type
    if sorted(got.identifiers()) != sorted(want.identifiers()):
        return "constituents %s" % got.identifiers()
    if sorted(got.dynamic) != sorted(want.dynamic):
        return "dynamic constituents %s" % got.dynamic
    gv, gq = got.interpolate(x, y)
    wv, wq = want.interpolate(x, y)
    if (gq != wq).any():
        i = int(numpy.flatnonzero(gq != wq)[0])
        return "quality %d instead of %d at (%g, %g)" % (gq[i], wq[i], x[i], y[i])
    for c in wv:
        bad = ~((numpy.isnan(gv[c]) & numpy.isnan(wv[c])) | (numpy.abs(gv[c] - wv[c]) <= tol))
        if bad.any():
            i = int(numpy.flatnonzero(bad)[0])
            return "%s is %s instead of %s at (%g, %g)" % (c, gv[c][i], wv[c][i], x[i], y[i])
    return ""


def describe(s):
    return ", ".join("%s %s" % (k, v) for k, v in s.items())


def tolerance(s):
    return 1e-9 if s["bits"] == (64, 64) else 2e-4


def good(s, key):
    section, expected, x, y = write(s, "f")
    models, error = load({s["tide"]: {"cartesian" if s["kind"] == "cartesian" else "lgp": section}})
    R.transition()
    R.trace()
    R.state(sorted((k, str(v)) for k, v in s.items()))
    if error:
        R.fail(key + ":refused", "%s: %s" % (describe(s), error))
        R.outcome("refused")
        return
    R.outcome("loaded")
    if list(models) != [s["tide"]]:
        R.fail(key + ":sections", "%s: %s" % (describe(s), list(models)))
        return
    d = same(models[s["tide"]], expected(), x, y, tolerance(s))
    if d:
        R.fail(key + ":" + d.split(" ")[0], "%s: %s" % (describe(s), d))
    if stand_in.Dataset.opened:
        stand_in.Dataset.opened = 0
        R.fail(key + ":open", "%s: a file is left open" % describe(s))


BITS = ((64, 64), (32, 32), (32, 64), (64, 32))
WAVES = (["M2"], ["K1", "M2", "Mf"], ["2N2"])


def grids():
    full = R.thorough
    for tide, bits, order, square, lon, lat, unit, mask, waves in itertools.product(
            ("tide", "radial"), BITS if full else BITS[:2], ("lat lon", "lon lat", "mixed"), (False, True), ("part", "circular"), ("up", "down"),
            tuple(UNITS) if full else ("degrees", "Degrees", "radians", "rad"), ("none", "amplitude", "phase", "both", "nan"), WAVES if full else WAVES[:2]):
        if R.begin("grids"):
            good(base("cartesian", tide=tide, bits=bits, order=order, square=square, lon=lon, lat=lat, unit=unit, mask=mask, waves=waves), "grids")


def meshes():
    for kind, tide, bits, unit, mask, waves, distance, dynamic in itertools.product(
            ("lgp1", "lgp2"), ("tide", "radial"), BITS, tuple(UNITS), ("none", "amplitude", "phase", "both", "nan"), WAVES, (None, 0.0, 150000.0, 1e7), ([], ["A5"])):
        if R.begin("meshes"):
            good(base(kind, tide=tide, bits=bits, unit=unit, mask=mask, waves=waves, distance=distance, dynamic=dynamic), "meshes")


def mixed():
    """Every constituent has its own unit, masks and storage order."""
    for kind, units, waves, mask in itertools.product(("cartesian", "lgp1", "lgp2"), itertools.product(("degrees", "Degrees", "radians", "deg"), repeat=3),
                                                      itertools.permutations(["M2", "K1", "Mf"]), ("none", "both")):
        if R.begin("mixed"):
            good(base(kind, unit=units, waves=list(waves), mask=mask, order="mixed"), "mixed")


def settings():
    """Names, dynamic constituents, environment, tolerance of the axis."""
    for kind, nms, env, dynamic, always, waves in itertools.product(("cartesian", "lgp1", "lgp2"), ("default", "others"), ("none", "one", "nested", "two"),
                                                                     ([], ["A5"], ["S2", "A5"], ["M2"]), (True, False), WAVES):
        for eps in ((None, 0.5) if kind == "cartesian" else (None,)):
            if R.begin("settings"):
                good(base(kind, names=nms, env=env, dynamic=dynamic, always_mask=always, waves=waves, epsilon=eps, mask="both"), "settings")
    for eps in (None, 1e-6, 1e-3, 0.5, 9.0, 46.0, 300.0):
        for gap in (0.0, 1e-4, 0.1, 5.0):
            if not R.begin("settings"):
                continue
            s = base("cartesian", lon="circular", epsilon=eps)
            saved = LON["circular"]
            LON["circular"] = saved * (1 - gap / 360)
            try:
                good(s, "settings:epsilon")
            finally:
                LON["circular"] = saved


def pairs():
    """Both sections in one file, models of every kind."""
    kinds = ("cartesian", "lgp1", "lgp2")
    for a, b, bits, first, dyn in itertools.product(kinds, kinds, itertools.product(BITS[:2], repeat=2), ("tide", "radial"), itertools.product(([], ["A5"]), repeat=2)):
        if not R.begin("pairs"):
            continue
        s = {"tide": base(a, tide="tide", bits=bits[0], dynamic=dyn[0], waves=["M2", "K1"]), "radial": base(b, tide="radial", bits=bits[1], dynamic=dyn[1], unit="radians")}
        made = {k: write(v, k) for k, v in s.items()}
        order = [first, "radial" if first == "tide" else "tide"]
        models, error = load({k: {"cartesian" if s[k]["kind"] == "cartesian" else "lgp": made[k][0]} for k in order})
        R.transition()
        R.trace()
        R.state(a, b, bits, first, dyn)
        what = "; ".join(describe(s[k]) for k in order)
        if error:
            R.fail("pairs:refused", "%s: %s" % (what, error))
            continue
        if sorted(models) != ["radial", "tide"]:
            R.fail("pairs:sections", "%s: %s" % (what, list(models)))
            continue
        for k in order:
            d = same(models[k], made[k][1](), made[k][2], made[k][3], tolerance(s[k]))
            if d:
                R.fail("pairs:" + d.split(" ")[0], "%s: %s: %s" % (what, k, d))


# ------------------------------------------------------------------ defects
def edit(path, f):
    with open(path, "rb") as g:
        c = pickle.load(g)
    f(c)
    with open(path, "wb") as g:
        pickle.dump(c, g)


def defects():
    """Every single defect of a configuration or of a file."""
    for kind, tide, nms, waves in itertools.product(("cartesian", "lgp1", "lgp2"), ("tide", "radial"), ("default", "others"), (["M2"], ["M2", "K1", "S2"], ["M2", "K1"])):
        for name, f in (CARTESIAN_DEFECTS if kind == "cartesian" else LGP_DEFECTS) + DEFECTS:
            if not R.begin("defects"):
                continue
            s = base(kind, tide=tide, names=nms, waves=waves, dynamic=["A5"])
            section, expected, x, y = write(s, "d")
            key = "cartesian" if kind == "cartesian" else "lgp"
            c = {tide: {key: section}}
            r = f(s, c, section, names(s))
            if r == "skip":
                continue
            what = "%s (%s)" % (name, describe(s))
            models, error = load(c if not isinstance(r, dict) else r, r if isinstance(r, str) else None)
            R.transition()
            R.trace()
            R.state(name, kind, tide, nms, tuple(waves))
            R.outcome("refused" if error else "accepted")
            if not error:
                R.fail("defects:" + name.replace(" ", "-"), "accepted: %s" % what)
    stand_in.Dataset.opened = 0


def paths(section):
    return list(section["paths"].values()) if "paths" in section else [section["path"]]


def put(key, value):
    def f(s, c, section, nm):
        section[key] = value
    return f


def on_file(which, f, need=1):
    """Changes the which-th file."""
    def g(s, c, section, nm):
        p = paths(section)
        if len(p) < need:
            return "skip"
        edit(p[which], lambda content: f(content, nm, s))
    return g


def without(*keys):
    def f(content, nm, s):
        for k in keys:
            del content[nm[k].format(constituent=s["waves"][-1])]
    return f


def replace(key, g):
    def f(content, nm, s):
        v = content[nm[key].format(constituent=s["waves"][-1])]
        v["data"] = g(v["data"])
    return f


def both(g):
    def f(content, nm, s):
        for k in ("amplitude", "phase") if s["kind"] == "cartesian" else ("lamp", "lpha"):
            replace(k, g)(content, nm, s)
    return f


def alone(content, nm, s):
    """Another size of grid, everything consistent within the file."""
    content[nm["lon"]]["data"] = content[nm["lon"]]["data"][:-1]
    both(lambda d: d[:, :-1])(content, nm, s)


def other_shape(content, nm, s):
    """As many values, but not those of the axes."""
    both(lambda d: d.reshape(2, -1))(content, nm, s)


def rename(old, new):
    def f(s, c, section, nm):
        c[s["tide"]][new] = c[s["tide"]].pop(old)
    return f


def unknown_section(s, c, section, nm):
    c["loading"] = c.pop(s["tide"])


def extra_section(s, c, section, nm):
    c["loading"] = c[s["tide"]]


def extra_kind(s, c, section, nm):
    c[s["tide"]]["unstructured"] = {}


def both_kinds(s, c, section, nm):
    t = base("lgp1" if s["kind"] == "cartesian" else "cartesian", waves=["N2"])
    c[s["tide"]]["lgp" if s["kind"] == "cartesian" else "cartesian"] = write(t, "e")[0]


def missing(which):
    def f(s, c, section, nm):
        p = paths(section)
        if which >= len(p):
            return "skip"
        os.unlink(p[which])
    return f


def not_a_file(s, c, section, nm):
    with open(paths(section)[-1], "w") as f:
        f.write("not a dataset")


def env(value, **defined):
    def f(s, c, section, nm):
        os.environ.update(defined)
        if "path" in section:
            section["path"] = value
        else:
            section["paths"][list(section["paths"])[-1]] = value
    return f


def env_dynamic(s, c, section, nm):
    section["dynamic"] = ["${VPT_UNDEFINED}"]


DEFECTS = [
    ("unknown key", put("colour", "blue")),
    ("key of the other kind", lambda s, c, section, nm: section.update({"codes": "codes"} if s["kind"] == "cartesian" else {"epsilon": 1e-6})),
    ("tide type in the section", put("tidal_type", "tide")),
    ("unknown section", unknown_section),
    ("unknown section beside", extra_section),
    ("unknown kind", lambda s, c, section, nm: rename("cartesian" if s["kind"] == "cartesian" else "lgp", "grid")(s, c, section, nm)),
    ("unknown kind beside", extra_kind),
    ("two kinds", both_kinds),
    ("no kind", lambda s, c, section, nm: {s["tide"]: {}}),
    ("section without content", lambda s, c, section, nm: "%s:\n" % s["tide"]),
    ("kind without content", lambda s, c, section, nm: {s["tide"]: {"cartesian" if s["kind"] == "cartesian" else "lgp": None}}),
    ("empty file", lambda s, c, section, nm: "\n# nothing\n"),
    ("empty mapping", lambda s, c, section, nm: "{}\n"),
    ("list", lambda s, c, section, nm: "- tide\n- radial\n"),
    ("text", lambda s, c, section, nm: "tide"),
    ("not yaml", lambda s, c, section, nm: "tide: [1, 2\n"),
    ("unknown dynamic", put("dynamic", ["A5", "Z9"])),
    ("unknown first dynamic", put("dynamic", ["Z9", "A5"])),
    ("empty longitude", put("longitude", "")),
    ("empty latitude", put("latitude", "")),
    ("empty amplitude", put("amplitude", "")),
    ("empty phase", put("phase", "")),
    ("missing first file", missing(0)),
    ("missing second file", missing(1)),
    ("missing third file", missing(2)),
    ("not a dataset", not_a_file),
    ("longitude absent", on_file(-1, without("lon"))),
    ("latitude absent", on_file(-1, without("lat"))),
    ("longitude absent from the first file", on_file(0, without("lon"))),
    ("unknown longitude", put("longitude", "meridian")),
    ("unknown latitude", put("latitude", "parallel")),
    ("undefined variable", env("${VPT_UNDEFINED}/f.nc")),
    ("undefined variable in a list", env_dynamic),
    ("undefined variable inside another", env("${VPT_P}/f.nc", VPT_P="/tmp/${VPT_UNDEFINED}")),
    ("variable naming itself", env("${VPT_P}/f.nc", VPT_P="${VPT_P}")),
    ("growing variable", env("${VPT_P}/f.nc", VPT_P="a${VPT_P}b${VPT_P}")),
    ("variables naming each other", env("${VPT_P}/f.nc", VPT_P="${VPT_Q}", VPT_Q="${VPT_R}", VPT_R="x${VPT_P}")),
]
GRID_OTHERS = [
    ("longitudes shifted", replace("lon", lambda d: d + 0.5)),
    ("longitudes of another step", replace("lon", lambda d: d[0] + (d - d[0]) * 1.01)),
    ("longitudes reversed", replace("lon", lambda d: d[::-1].copy())),
    ("latitudes shifted", replace("lat", lambda d: d + 0.5)),
    ("latitudes of another step", replace("lat", lambda d: d[0] + (d - d[0]) * 1.01)),
    ("latitudes reversed", replace("lat", lambda d: d[::-1].copy())),
    ("another number of longitudes", alone),
    ("another shape", other_shape),
]
CARTESIAN_DEFECTS = [
    ("no path", lambda s, c, section, nm: section.pop("paths") and None),
    ("empty paths", put("paths", {})),
    ("unknown constituent", lambda s, c, section, nm: section["paths"].update(Z9=list(section["paths"].values())[0])),
    ("amplitude absent", on_file(-1, without("amplitude"))),
    ("phase absent", on_file(-1, without("phase"))),
    ("unknown amplitude", put("amplitude", "height")),
    ("unknown phase", put("phase", "lag")),
    ("one dimension", on_file(-1, both(lambda d: d[0]))),
    ("three dimensions", on_file(-1, both(lambda d: d[None]))),
    ("a row less", on_file(-1, both(lambda d: d[:-1]))),
    ("a column less", on_file(-1, both(lambda d: d[:, :-1]))),
    ("a phase row less", on_file(-1, replace("phase", lambda d: d[:-1]))),
    ("same size, not the axes", on_file(-1, other_shape)),
    ("same size, not the axes, first file", on_file(0, other_shape)),
] + [("second file: " + n, on_file(1, f, 2)) for n, f in GRID_OTHERS if n != "x"] + [("third file: " + n, on_file(2, f, 3)) for n, f in GRID_OTHERS]
LGP_DEFECTS = [
    ("no path", lambda s, c, section, nm: section.pop("path") and None),
    ("empty path", put("path", "")),
    ("unknown constituent", lambda s, c, section, nm: section["constituents"].append("Z9")),
    ("constituent absent from the file", lambda s, c, section, nm: section["constituents"].append("Q1")),
    ("amplitude absent", on_file(0, without("lamp"))),
    ("phase absent", on_file(0, without("lpha"))),
    ("codes absent", on_file(0, without("codes"))),
    ("triangles absent", on_file(0, without("triangle"))),
    ("unknown codes", put("codes", "other")),
    ("unknown triangles", put("triangle", "other")),
    ("empty codes", put("codes", "")),
    ("empty triangles", put("triangle", "")),
    ("unknown type", put("type", "lgp3")),
    ("empty type", put("type", "")),
    ("type of another element", lambda s, c, section, nm: section.update(type="lgp2" if s["kind"] == "lgp1" else "lgp1")),
    ("amplitude pattern", put("amplitude", "{name}_amplitude")),
    ("phase pattern", put("phase", "{name}_phase")),
    ("a value less", on_file(0, both(lambda d: d[:-1]))),
    ("an amplitude less", on_file(0, replace("lamp", lambda d: d[:-1]))),
    ("a code out of range", on_file(0, replace("codes", lambda d: d + 1))),
    ("a negative code", on_file(0, replace("codes", lambda d: d - 1))),
    ("codes of a triangle less", on_file(0, replace("codes", lambda d: d[:-1]))),
    ("a vertex out of range", on_file(0, replace("triangle", lambda d: d + 1))),
    ("a longitude less", on_file(0, replace("lon", lambda d: d[:-1]))),
]


# -------------------------------------------------------------- environment
def expand(text, variables, depth=0):
    """Our own reading: None if undefined or endless."""
    if depth > 9:
        return None
    out, i = "", 0
    while i < len(text):
        j = text.find("${", i)
        k = text.find("}", j)
        if j < 0 or k < 0:
            return out + text[i:]
        name = text[j + 2:k]
        if name not in variables:
            return None
        v = expand(variables[name], variables, depth + 1)
        if v is None:
            return None
        out += text[i:j] + v
        i = k + 1
    return out


def environment():
    """All environments of three variables over a few values, and all texts:
    texts are read through the document, at every place of it."""
    vals = ["v", "", "${VPT_B}", "x${VPT_C}y", "${VPT_U}", "${VPT_A}", "a b"]
    texts = ["", "plain", "${VPT_A}", "a${VPT_A}", "${VPT_A}b", "${VPT_A}${VPT_B}", "${VPT_B}/${VPT_A}/${VPT_B}", "${VPT_U}", "${VPT_A}-${VPT_U}", "$VPT_A", "{VPT_A}", "${VPT_A"]
    for a, b, c in itertools.product(vals, repeat=3):
        if not R.begin("environment"):
            continue
        for k in [k for k in os.environ if k.startswith("VPT_")]:
            del os.environ[k]
        variables = dict(VPT_A=a, VPT_B=b, VPT_C=c)
        os.environ.update(variables)
        for t in texts:
            want = expand(t, variables)
            doc = {"k": [t, {"n": t, "m": 5, "z": [True, None, t]}], "plain": "p", "f": 1.5}
            path = os.path.join(ROOT, "env.yaml")
            with open(path, "w", encoding="utf-8") as f:
                yaml.safe_dump(doc, f)
            try:
                got = CONFIG.parse(path)
            except Exception as e:  # noqa: BLE001
                got = e
            R.transition()
            R.state(a, b, c, t)
            if want is None:
                ok = isinstance(got, Exception)
            else:
                ok = got == {"k": [want, {"n": want, "m": 5, "z": [True, None, want]}], "plain": "p", "f": 1.5}
            R.outcome("refused" if want is None else "expanded")
            if not ok:
                R.fail("environment:" + ("accepted" if want is None else "expanded"), "%r with %r: %r instead of %r" % (t, variables, got, want))
        R.trace()


def chains():
    """Chains of one to ten variables, texts naming up to ten of them, and
    both: what is not endless must expand (more than ten is not judged)."""
    def judge(text, variables, want):
        for k in [k for k in os.environ if k.startswith("VPT_")]:
            del os.environ[k]
        os.environ.update(variables)
        path = os.path.join(ROOT, "env.yaml")
        with open(path, "w", encoding="utf-8") as f:
            yaml.safe_dump({"k": {"p": text}, "l": [text]}, f)
        try:
            got = CONFIG.parse(path)
        except Exception as e:  # noqa: BLE001
            got = e
        R.transition()
        R.state(text, sorted(variables.items()))
        R.outcome("expanded")
        if got != {"k": {"p": want}, "l": [want]}:
            R.fail("environment:chain", "%r with %r: %r instead of %r" % (text, variables, got, want))

    for depth, breadth in itertools.product(range(1, 11), repeat=2):
        if depth * breadth > 10 or not R.begin("chains"):
            continue
        for pre, post in (("", ""), ("a", ""), ("", "z"), ("/d/", "-e")):
            v = {"VPT_%d" % i: pre + "${VPT_%d}" % (i + 1) + post for i in range(depth - 1)}
            v["VPT_%d" % (depth - 1)] = "end"
            one = pre * (depth - 1) + "end" + post * (depth - 1)
            judge("/".join(["${VPT_0}"] * breadth), v, "/".join([one] * breadth))
            w = {"VPT_W%d" % i: "w%d" % i for i in range(breadth)}
            judge(":".join("${VPT_W%d}" % i for i in range(breadth)), w, ":".join("w%d" % i for i in range(breadth)))
        R.trace()


def precisions():
    """Files of one model whose values are not stored alike: the model holds
    the values of every file, or the configuration is refused."""
    for n in (2, 3):
        waves = ["M2", "K1", "S2"][:n]
        for bits, tide, order, unit in itertools.product(itertools.product((32, 64), repeat=n), ("tide", "radial"), ("lat lon", "lon lat"), ("degrees", "radians")):
            if not R.begin("precisions"):
                continue
            section = None
            for k, c in enumerate(waves):
                s = base("cartesian", tide=tide, order=order, unit=unit, waves=waves, bits=(bits[k], bits[k]))
                one, expected, x, y = cartesian(s, "p%d" % bits[k])
                section = section or one
                section["paths"][c] = one["paths"][c]
            models, error = load({tide: {"cartesian": section}})
            R.transition()
            R.trace()
            R.state(bits, tide, order, unit)
            R.outcome("refused" if error else "loaded")
            if error:
                continue
            got, want = models[tide], expected()
            gv, _ = got.interpolate(x, y)
            wv, _ = want.interpolate(x, y)
            for k, c in enumerate(stand_in.parse(w) for w in waves):
                tol = 1e-9 if bits[k] == 64 else 2e-4
                bad = ~((numpy.isnan(gv[c]) & numpy.isnan(wv[c])) | (numpy.abs(gv[c] - wv[c]) <= tol)) if c in gv else numpy.array([True])
                if bad.any():
                    R.fail("precisions:values", "the values of %s, in %s files of %s bits, are not those of its file: %s" % (c, tide, bits, "%s instead of %s" % (gv[c][bad][:2], wv[c][bad][:2]) if c in gv else list(gv)))
        stand_in.Dataset.opened = 0


def main():
    try:
        grids()
        chains()
        precisions()
        meshes()
        mixed()
        settings()
        pairs()
        defects()
        environment()
        R.finish()
    finally:
        shutil.rmtree(ROOT, ignore_errors=True)


main()
