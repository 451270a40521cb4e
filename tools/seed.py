#!/usr/bin/env python3
"""Author tool: tries planted bugs.  seed.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=C++ or
None, demo_sh=..., needs, breaks)].  For each bug: edit /repo, save the diff,
build, run the tests, the demonstration (must fail) and the check of the
property, restore /repo.  At the end, on the clean tree, every demonstration
must pass.  Kept bugs are written to /verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys
REPO, OUT = "/repo", "/verif/seeded"
DEMO_SH = r'''#!/bin/bash
# exit 0: behaves as stated; anything else: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
g++ -std=c++14 -O1 -w -Iinclude -I/usr/include/eigen3 "$d/demo.cpp" _build/libfes.a -lpthread -o "$t/demo" || { rm -rf "$t"; exit 3; }
timeout 200 "$t/demo"
r=$?
rm -rf "$t"
exit $r
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(i):
    return sh("bash %s/%s/demo.sh" % (OUT, i), cwd=REPO)
def clean():
    assert sh("git -C /repo checkout -- .").returncode == 0
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
done = []
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
for b in bugs:
    i = b["id"]
    if only and i not in only: continue
    d = os.path.join(OUT, i)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f); t = open(p).read()
            if t.count(old) != 1: raise SystemExit("%s: %d matches in %s" % (i, t.count(old), f))
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(d + "/demo.sh", "w").write(b.get("demo_sh") or DEMO_SH)
        if b.get("demo"): open(d + "/demo.cpp", "w").write(b["demo"])
        if b.get("py"): open(d + "/demo.py", "w").write(b["py"])
        for src in b.get("files", []): (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, os.path.basename(src)))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        res = json.load(open("/tmp/seed.json"))
        tests = "%d passed %d failed" % (len(res["passed"]), len(res["failed"]))
        dm = demo(i)
        ck = sh("python3 check.py %s --tier quick" % b["property"], cwd="/verif", timeout=1800)
        line = [l for l in ck.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = len(res["passed"]) == 49 and not res["failed"] and dm.returncode != 0
        print("%s: %s | tests %s %s | demo %d | check %d %s" % (i, "OK" if ok else "NOT KEPT", tests, res["failed"][:3], dm.returncode, ck.returncode, "CAUGHT" if ck.returncode == 1 and line else "MISSED " + ck.stdout[-300:]), flush=True)
        if not ok and dm.returncode == 0: print("   demo:", dm.stdout[-400:])
        done.append(i)
    finally:
        clean()
sh("bash /opt/vp/build.sh")
for i in done:
    dm = demo(i)
    if dm.returncode: print(i, "demo FAILS on the clean tree", dm.returncode, dm.stdout[-500:])
print("clean demos done")
