#!/usr/bin/env python3
"""Runs one check:  check.py C05 [--tier quick|thorough] [--replay FILE]
Builds everything ahead:  check.py --setup

Exit 0: property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check could not give an answer (build failure, ...).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

NPROC = os.cpu_count() or 8
EIGEN = "/usr/include/eigen3"
SAN_COMMON = ["-std=c++14", "-g0", "-fno-omit-frame-pointer", "-w",
              "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"),
              "-isystem", EIGEN]
MODES = {
    # memory-checked build, assertions of Eigen and of the C++ library on
    "asan": dict(cxx="g++", flags=SAN_COMMON + ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address", "-lpthread"]),
    # every memory access calls our own scheduler / race detector
    "sched": dict(cxx="g++", flags=SAN_COMMON + ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
                  link=["-lpthread", "-ldl", "-rdynamic"]),
    "schedrt": dict(cxx="g++", flags=SAN_COMMON + ["-O2", "-fno-exceptions"], link=[]),
    "shared": dict(cxx="g++", flags=SAN_COMMON + ["-O1", "-fPIC", "-D_GLIBCXX_ASSERTIONS"], link=["-shared", "-lpthread"]),
    # the bindings in src/python/core, against the stand-in of pybind11
    "pycore": dict(cxx="g++", flags=["-std=c++14", "-I" + os.path.join(VERIF, "harness", "mini")] + SAN_COMMON[1:] + ["-O1", "-fPIC", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "@python"],
                   link=["-shared", "-fsanitize=address", "-lpthread"]),
    "plain": dict(cxx="g++", flags=SAN_COMMON + ["-O2", "-D_GLIBCXX_ASSERTIONS"], link=["-lpthread"]),
}


class NoAnswer(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def file_hash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def python_flags():
    """Where Python.h and numpy's headers are."""
    if not PYTHON_FLAGS:
        r = run(["python3-vt", "-c", "import numpy, sysconfig; print(sysconfig.get_paths()['include']); print(numpy.get_include())"])
        if r.returncode:
            raise NoAnswer("no Python headers\n" + r.stderr.decode(errors="replace")[-1000:])
        PYTHON_FLAGS.extend(x for d in r.stdout.decode().split() for x in ("-isystem", d))
    return PYTHON_FLAGS


PYTHON_FLAGS = []


def compile_obj(src, mode, defines=()):
    """Compiles src; the cache key is the preprocessed text, so comments and
    untouched headers cost nothing."""
    m = MODES[mode]
    flags = [g for f in m["flags"] for g in (python_flags() if f == "@python" else [f])] + list(defines)
    pp = run([m["cxx"], "-E", "-P"] + flags + [src])
    if pp.returncode:
        raise NoAnswer("cannot preprocess %s\n%s" % (src, pp.stderr.decode(errors="replace")[-3000:]))
    key = hashlib.sha256("\0".join([m["cxx"], mode] + [f for f in flags if not f.startswith("-I")]).encode() + pp.stdout).hexdigest()[:32]
    obj = os.path.join(CACHE, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.%s.tmp.o" % (os.getpid(), hashlib.md5(src.encode()).hexdigest()[:8])
        r = run([m["cxx"]] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise NoAnswer("cannot compile %s\n%s" % (src, r.stderr.decode(errors="replace")[-3000:]))
        os.replace(tmp, obj)
    return obj


def build(check):
    mode = check.get("mode", "asan")
    lib = sorted(glob.glob(os.path.join(REPO, "src/library/**/*.cpp"), recursive=True))
    jobs = [(s, mode, ()) for s in lib] if check.get("lib", True) else []
    if mode == "pycore":
        python_flags()
        jobs += [(s, mode, ()) for s in sorted(glob.glob(os.path.join(REPO, "src/python/core/**/*.cpp"), recursive=True))]
        jobs += [(os.path.join(VERIF, "harness", s), mode, ()) for s in check["src"] + ["pybind_rt.cpp"]]
        check = dict(check, src=[])
    jobs += [(os.path.join(VERIF, "harness", s), mode, ("-include", "vp.hpp") + tuple(check.get("defines", ()))) for s in check["src"]]
    jobs += [(os.path.join(VERIF, "harness", s), "schedrt", ()) for s in check.get("rt", [])]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    link = MODES[mode]["link"] + list(check.get("link", []))
    key = hashlib.sha256("\0".join([os.path.basename(o) for o in objs] + link).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, "exe", key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run([MODES[mode]["cxx"]] + objs + link + ["-o", tmp])
        if r.returncode:
            raise NoAnswer("cannot link\n" + r.stderr.decode(errors="replace")[-3000:])
        os.replace(tmp, exe)
    return [exe]


def command(check):
    if "py" in check:
        if "src" in check:
            ENV["VP_LIB"] = build(check)[0]
            if check.get("mode") == "pycore":
                ENV["LD_PRELOAD"] = " ".join(run(["g++", "-print-file-name=" + f]).stdout.decode().strip() for f in ("libasan.so", "libstdc++.so.6"))
        return ["python3-vt", "-B", os.path.join(VERIF, "harness", check["py"])]
    return build(check)


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=97:malloc_fill_byte=71:max_malloc_fill_size=100000000:"
                    "allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:"
                    "allow_user_segv_handler=0:max_allocation_size_mb=2000:quarantine_size_mb=16",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
    "VP_REPO": REPO, "LC_ALL": "C.UTF-8",
})


def execute(cmd, args, workdir, name, timeout):
    out = os.path.join(workdir, name + ".out")
    prog = os.path.join(workdir, name + ".prog")
    if os.path.exists(out):
        os.unlink(out)
    full = cmd + ["--out", out, "--progress", prog] + args
    err = open(os.path.join(workdir, name + ".err"), "wb")
    p = subprocess.Popen(full, stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=ENV, cwd=workdir)
    hang = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        hang = True
        p.kill()
        p.wait()
    err.close()
    res = dict(rc=p.returncode, hang=hang, viol=[], sum=None, hashes=set(), args=args)
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["t"] == "viol":
                    res["viol"].append(d)
                elif d["t"] == "sum":
                    res["sum"] = d
                elif d["t"] == "hashes":
                    h = d["h"]
                    res["hashes"] = {h[i:i + 16] for i in range(0, len(h), 16)}
        os.unlink(out)
    if res["sum"] is None:
        section, cid, note = "?", 0, ""
        try:
            with open(prog, "rb") as f:
                b = f.read()
            cid = int.from_bytes(b[0:8], "little")
            section = b[8:72].split(b"\0")[0].decode(errors="replace")
            note = b[72:584].split(b"\0")[0].decode(errors="replace")
        except OSError:
            pass
        with open(os.path.join(workdir, name + ".err"), "rb") as f:
            tail = f.read().decode(errors="replace")
        keep = [l for l in tail.splitlines() if "ERROR" in l or "SUMMARY" in l or "Assert" in l or "what()" in l or "terminate" in l or "Error" in l]
        tail = "\n".join(keep[:6]) or tail[-800:]
        res["crash"] = dict(section=section, id=cid, note=note,
                            kind="hang" if hang else "crash", msg=("no answer after %ds" % timeout if hang else "process ended with %s" % p.returncode) +
                            "; " + note + "; " + tail)
    if os.path.exists(prog):
        os.unlink(prog)
    return res


def known_findings(pid):
    """key -> text, for the findings recorded but not repaired."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    key, text = rest.split(" ", 1)
                    out[key[len("key="):]] = text
    return out


def main():
    argv = sys.argv[1:]
    if "--setup" in argv:
        return setup()
    pid = argv[0]
    check = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(VERIF, ".cache", "run", pid)
    os.makedirs(work, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cmd = command(check)
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rp = json.load(f)
        r = execute(cmd, rp["args"], work, "replay", 600)
        for v in r["viol"]:
            print(v["key"], "|", v["msg"])
        if r.get("crash"):
            print("crash:", r["crash"])
        return 1 if r["viol"] or r.get("crash") else 0
    n = check.get("shards", NPROC)
    limit = check.get("timeout", 600) if tier == "quick" else check.get("thorough_timeout", 7200)
    base = ["--tier", tier]
    deadline = t0 + (820 if tier == "quick" else 1e9)
    with cf.ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(execute, cmd, base + ["--shard", "%d/%d" % (i, n)], work, "s%d" % i, limit) for i in range(n)]
        results = [f.result() for f in futs]
    known = known_findings(pid)
    # violations, grouped by key
    viol, order, seen_known = {}, [], {}
    for i, r in enumerate(results):
        for v in r["viol"]:
            if v["key"] in known:
                seen_known[v["key"]] = v
                continue
            if v["key"] not in viol:
                viol[v["key"]] = dict(v, shard=i)
                order.append(v["key"])
        if r.get("crash"):
            c = r["crash"]
            k = "%s:%s" % (c["kind"], c["section"])
            if k not in viol:
                viol[k] = dict(section=c["section"], id=c["id"], key=k, msg=c["msg"], shard=i, crash=True)
                order.append(k)
    confirmed, unconfirmed = [], []
    for k in order[:12]:
        v = viol[k]
        if time.time() > deadline:
            unconfirmed.append(v)
            continue
        alone = base + ["--only", "%s:%d" % (v["section"], v["id"])]
        attempts = [alone, base + ["--shard", "%d/%d" % (v["shard"], n)]]
        ok = None
        for a in attempts:
            r = execute(cmd, a, work, "confirm", min(limit, 300))
            if r.get("crash") or any(w["key"] not in known for w in r["viol"]):
                ok = a
                break
        if ok:
            v["args"] = ok
            confirmed.append(v)
            if len(confirmed) >= 3:
                break
        else:
            unconfirmed.append(v)
    # evidence
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0, samples=[], sections={}, outcomes={}, counters={})
    hashes = set()
    stopped = False
    for r in results:
        s = r["sum"]
        hashes |= r["hashes"]
        if not s:
            stopped = True
            continue
        stopped = stopped or s["stopped"]
        cov["evaluations"] += s["cases"]
        cov["transitions"] += s["transitions"]
        cov["traces_validated_against_impl"] += s["traces"]
        for src, dst in (("sections", "sections"), ("extra", "counters"), ("outcomes", "outcomes")):
            for k, x in s[src].items():
                if k.startswith("max "):
                    cov[dst][k] = max(cov[dst].get(k, 0), x)
                else:
                    cov[dst][k] = cov[dst].get(k, 0) + x
        for x in s["samples"]:
            if len(cov["samples"]) < 8:
                cov["samples"].append(x)
    cov["states"] = len(hashes)
    cov["exhaustive"] = not stopped
    cov["space"] = check.get("space", "")
    nviol = sum((r["sum"] or {}).get("violations", 0) for r in results)
    ev = dict(property=pid, tier=tier, seed=seed, level=check.get("level", "model_checking"), coverage=cov,
              assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, text in known.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if confirmed:
        for j, v in enumerate(confirmed):
            rp = os.path.join(evdir, "%s.replay%d.json" % (pid, j))
            with open(rp, "w") as f:
                json.dump(dict(property=pid, key=v["key"], message=v["msg"], args=v["args"],
                               how="python3 check.py %s --replay %s" % (pid, rp)), f, indent=1)
                f.write("\n")
            print("%s: %s [%s:%s] %s" % (pid, v["key"], v["section"], v["id"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if unconfirmed:
        for v in unconfirmed:
            print("%s: not reproduced: %s %s" % (pid, v["key"], v["msg"][:500]), file=sys.stderr)
        return 2
    if any(r["sum"] is None for r in results):
        print("%s: incomplete" % pid, file=sys.stderr)
        return 2
    print("%s held: %d cases, %d states, %d transitions, %d traces replayed on the code, %.1fs" %
          (pid, cov["evaluations"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0


def setup():
    bad = 0
    for pid, check in sorted(CHECKS.items()):
        try:
            command(check)
            print("built", pid, flush=True)
        except NoAnswer as e:
            bad = 1
            print("setup:", pid, e, file=sys.stderr)
    return bad


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer:", e, file=sys.stderr)
        sys.exit(2)
