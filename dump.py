#!/usr/bin/env python3
"""dump.py <property id> [root] : print the flow graphs a property's rules see (development aid)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from engine import core
mod = importlib.import_module("rules." + sys.argv[1].lower())
data, cgs, st = core.run_groups(mod.P, "release")
def short(i):
    l = i.loc
    return "%s:%d" % (l[0].split("/")[-1], l[1]) if l else ""
def show(f):
    print("==", f.base, f.src, "inl", len(f.d["inlined"]), "rec", f.d["recursed"])
    print("   ", f.full[:300])
    for b in f.order:
        
        if f.blocks[b] and f.blocks[b][-1].op == "unreachable":
            print(" b%d: <- %s PANIC" % (b, f.pred[b])); continue
        print(" b%d: <- %s" % (b, f.pred[b]))
        for i in f.blocks[b]:
            if i.op in ("alloca", "field", "getelementptr", "zext", "trunc", "ptrtoint", "bitcast"): continue
            if f.blocks[b][-1].op == "unreachable":
                if i.op != "unreachable": print("   PANIC %s" % i.callee)
                continue
            if i.op == "br" and not i.ops: print("   -> %s" % i.d["succ"]); continue
            def t(o): return f.term(o)[:90] if not (isinstance(o, core.Ins) and o.op in ("phi","call","load","icmp")) else "%%%d:%s" % (o.id, f.term(o)[:60])
            e = " ".join("%s=%s" % (k, i.d[k]) for k in ("ord","ford","rmw","pred","from","succ","cases","noret","default","vty") if k in i.d)
            print("   %%%d %s %s (%s) %s   @%s" % (i.id, i.op, (i.callee or ""), ", ".join(t(o) for o in i.ops), e, short(i)))
for r, l in data.items():
    if len(sys.argv) > 2 and r not in sys.argv[2:]: continue
    print("#### root", r, len(l))
    for f in l: show(f)
