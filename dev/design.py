#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md from props.py and the rule modules"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(10000)
import props
out = []
for p in props.PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p.get("na"):
        out.append("Not decided: %s\n" % p["na"]); continue
    mod = importlib.import_module("rules." + p["id"].lower())
    out.append(" ".join(mod.P.explain.split()) + "\n")
    out.append("*Reach beyond tests*: %s *Quantified over*: %s.\n" % (p["why"], p["forall"]))
    out.append("| rule | obligation |\n|---|---|")
    for rid, text, f, mn in mod.P.rules:
        out.append("| %s | %s |" % (rid, text.replace("|", "\\|")))
    out.append("")
d = open(os.path.join(H, "DESIGN.md")).read()
a, b = "<!-- generated by dev/design.py -->\n", "<!-- end -->\n"
i, j = d.index(a) + len(a), d.index(b)
open(os.path.join(H, "DESIGN.md"), "w").write(d[:i] + "\n".join(out) + "\n" + d[j:])

d = open(os.path.join(H, "DESIGN.md")).read()
a, b = "<!-- seeds -->\n", "<!-- endseeds -->\n"
i, j = d.index(a) + len(a), d.index(b)
t = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
SD = os.path.join(H, "seeded")
for s in sorted(os.listdir(SD)):
    m = json.load(open(os.path.join(SD, s, "meta.json")))
    t.append("| %s | %s | %s | %s |" % (s, m.get("caught_by", m["property"]), m["what_it_breaks"], m["needs"]))
open(os.path.join(H, "DESIGN.md"), "w").write(d[:i] + "\n".join(t) + "\n" + d[j:])
