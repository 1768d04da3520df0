#!/usr/bin/env python3
"""Regenerate the per-property section of DESIGN.md (between the markers) from props/ and tools/design_notes.txt"""
import glob, os, sys, json
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from vcg import driver
here = os.path.dirname(os.path.abspath(__file__))
notes, cur = {}, None
for l in open(here + "/design_notes.txt"):
    if l.startswith("P") and l[3:4] == ":":
        cur = l[:3]; notes[cur] = l[4:].strip()
    elif cur:
        notes[cur] += " " + l.strip()
titles = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l); titles[d["id"]] = d["title"]
out = []
for pid in sorted(titles):
    out.append("### %s %s\n" % (pid, titles[pid]))
    if not os.path.exists("/verif/props/%s.py" % pid):
        out.append("Not applicable. " + notes.get(pid, "") + "\n"); continue
    p = driver.load_prop(pid)
    fs = {}
    for u in p.units:
        for c in u.contracts:
            k = u.fp
            fs.setdefault("assumed" if getattr(c, "assumed", False) else k, []).append(c.fn) if c.fn not in fs.get(k, []) else None
        for c in u.uses or []:
            if c.fn not in fs.setdefault("assumed", []): fs["assumed"].append(c.fn)
    out.append(notes.get(pid, "") + "\n")
    for k, t in (("uf", "Under contract, floating point uninterpreted (holds for IEEE)"), ("real", "Under contract, floating point as reals"), ("assumed", "Callee contracts assumed here")):
        if fs.get(k): out.append("- %s: %s." % (t, ", ".join("`%s`" % x for x in dict.fromkeys(fs[k]))))
    if p.cbmc: out.append("- CBMC on the real source, complete over the finite domain: %s." % ", ".join("`%s`" % c.name for c in p.cbmc))
    for b in p.bounded: out.append("- Bounded, not counted as proved: %s." % b)
    for o in p.oracles: out.append("- Executable contract (replay%s): `harness/%s`." % (", also run on every check" if o.always else "", o.harness))
    out.append("")
s = open("/verif/DESIGN.md").read()
a, b = "<!-- properties: generated by tools/design.py -->\n", "<!-- end of properties -->\n"
i, j = s.index(a) + len(a), s.index(b)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
