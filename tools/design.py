#!/usr/bin/env python3
"""Fills DESIGN.md's generated parts from tools/props_data.py, the harness headers, known_findings.json and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(*a): P.append(a)
def na(*a): NA.append(a)
exec(open(V + "/tools/props_data.py").read())
cost = {}
for p in glob.glob(V + "/evidence/C*.json"):
    e = json.load(open(p))
    if e["tier"] == "quick": cost[e["property"]] = e
s = open(V + "/tools/DESIGN.in.md").read()
o = []
for a in sorted(P):
    o.append("### %s %s\n\n%s Quantified over %s.\n" % (a[0], a[1], a[8], a[4]))
    for h in sorted(glob.glob(V + "/harness/%s_*.cpp" % a[0])):
        t = open(h).read()
        b = re.findall(r"// vp-bounds: (.*)", t); ids = sorted(set(re.findall(r'vp_assert \(.*?, "([\w-]+)"\)', t)))
        o.append("* `%s`: %s. Asserts: %s." % (os.path.basename(h), " ".join(b), ", ".join(ids)))
    o.append("\nWhy tests cannot: %s\n" % a[5])
fx = json.load(open(V + "/known_findings.json"))["fixed"]
f = ["* " + re.sub(r"^fixed: property=(\w+) (\w+) ", r"**\1** `\2`: ", x) for x in fx]
n = ["### Not applicable\n"] + ["* **%s %s**: %s" % (a[0], a[1], a[8]) for a in sorted(NA)] if NA else []
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
sd = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); k = os.path.basename(d)
    sd.append("| %s | %s | %s | %s |" % (k, m["property"], m["needs"], c.get(k, "?")))
for k, v in (("PROPS", o), ("FIXED", f), ("NA", n), ("SEEDED", sd)): s = s.replace("@@%s@@" % k, "\n".join(v))
open(V + "/DESIGN.md", "w").write(s)
