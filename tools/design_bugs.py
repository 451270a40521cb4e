import json, os
s=open('/verif/DESIGN.md').read()
a=s.index("## 5 Planted bugs"); b=s.index("## 6 False alarms")
missed={"c10-small-triangle":"missed at first: elements of a few metres added to the meshes",
"c19-null-series":"missed at first: tolerance made relative, amplitudes over 40 decades",
"c22-first-code":"missed at first: all numberings of codes added",
}
try:
    missed.update(json.load(open('/verif/tools/missed.json')))
except FileNotFoundError: pass
out=["## 5 Planted bugs","","Each bug of `seeded/` was written from a property's text and the code, then tried.","The check of its own property catches it in the quick tier, unless stated:","","| bug | what it breaks | caught by |","|---|---|---|"]
for n in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{n}/meta.json'))
    out.append("| %s | %s | %s%s |"%(n,m['what_it_breaks'].rstrip('.'),m['property'],"; "+missed[n] if n in missed else ""))
out.append("");out.append("`c13-eps2-own-2n2` was dropped: a stable test fails with it.");out.append("");out.append("")
s=s[:a]+"\n".join(out)+s[b:]
if "C28: negative strides" not in s:
    s=s.replace("## 7 Not covered","""* C28: negative strides on references with dynamic strides were expected to be
  read; real pybind11 refuses them (`TypeError`), so both are accepted. Phases are
  compared modulo a turn. C29: two roundings are allowed to nanosecond counts.
* C10: below a metre the floating point longitudes and latitudes themselves are
  too coarse for the bound on values; smaller elements are not judged.

## 7 Not covered""",1)
    s=s.rstrip()+""" setup.cfg names a package `pyfes.console_scripts` that does
not exist (packaging settings may not be changed here, and no property covers
the installed entry point).
"""
open('/verif/DESIGN.md','w').write(s)
