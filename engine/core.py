"""Property = extraction groups (which units, which roots, which calls stay visible) + rules over the flow graphs."""
import concurrent.futures as cf
import json
import os
import re
import time
import traceback

from . import build
from .build import Broken, VERIF
from .ir import Fn, Ins, SearchCap

# calls that stay visible in posh-level graphs: containers, strings, streams.  Their own behaviour is taken as given;
# inlining them into every client would only bury the client's own structure.
CONTAINERS = [
    r"^iox::(vector|forward_list|list|string|stack|FixedPositionContainer|UninitializedArray|NonZeroedBuffer)::(?!.*lambda)",
    r"^iox::concurrent::(?!Atomic)\w+::(?!.*lambda)",
    r"^std::(sort|set_intersection|__sort|__introsort|__set|map|vector|deque|list|function|basic_|__cxx11|char_traits|operator<<|allocator|unique_ptr|thread|this_thread|__invoke|make_unique|chrono)",
    r"^std::_(Rb|List|Vector|Function|Hash|Deque)",
    r"^iox::units::", r"^iox::(cxx::)?detail::adaptive_wait::", r"^iox::detail::adaptive_wait::",
    r"^iox::RelativePointer::(computeRawPtr|computeOffset|getId|getOffset|searchId|getRepository|registerPtr|registerPtrWithId|unregisterPtr|unregisterAll|getBasePtr|getPtr)$",
    r"^iox::RelativePointer<.*>::(RelativePointer|operator=)\([^()]*\*( const)?\)$",
    r"^iox::getRepository$",
    r"^iox::PointerRepository::",
    r"^iox::into$", r"^iox::convert::",
]
PURE = ["iox::RelativePointer::(computeRawPtr|getId|getOffset|searchId)", r"iox::(vector|stack|list|forward_list|string)::(size|empty|capacity|max_size|c_str)"]


class Group:
    def __init__(self, units, opaque=(), pure=(), containers=True, limit=60000, callgraph=False, fold=True):
        self.units, self.opaque, self.pure = list(units), list(opaque), list(pure)
        self.containers, self.limit, self.callgraph, self.fold = containers, limit, callgraph, fold
        self.roots = []


class Prop:
    def __init__(self, pid):
        self.pid = pid
        self.groups = {}
        self.rules = []
        self.explain = ""
        self.assume = []
        self.static = []  # rules that are compile-time witnesses: (id, text, callable)

    def group(self, name, units, **kw):
        self.groups[name] = Group(units, **kw)

    def root(self, group, rid, base, filter=None, opaque=(), min=1, max=None):
        self.groups[group].roots.append(dict(id=rid, base=base, filter=filter, opaque=list(opaque), min=min))

    def rule(self, rid, text, min=1):
        def deco(f):
            self.rules.append((rid, text, f, min))
            return f
        return deco


class Ctx:
    def __init__(self, prop, data, cgs):
        self.prop, self.data, self.cgs = prop, data, cgs
        self.obs = []
        self.cur = None
        self.enums = None

    def fns(self, *rids):
        out = []
        for r in rids:
            if r not in self.data:
                raise Broken("no root " + r)
            out += self.data[r]
        return out

    def fn(self, rid):
        l = self.fns(rid)
        if len(l) != 1:
            raise Broken("root %s has %d instances" % (rid, len(l)))
        return l[0]

    def enum(self, name):
        """enumerators of an enumeration of the analysed units"""
        if self.enums is None:
            self.enums = build.extract(dict(roots=[], opaque=[], pure=[], limit=1, callgraph=False), build.compile_all([os.path.join(VERIF, "drivers", "enums.cpp")]))["enums"]
        e = self.enums.get(name)
        if not e:
            raise Broken("no enumeration " + name)
        return e

    def ob(self, ok, fn, what, tag, at=None, witness=None):
        """one obligation: ok, or a violation reported at construct `at` of graph fn (tag: stable identification)"""
        where = at.at if isinstance(at, Ins) else (at or getattr(fn, "src", "?"))
        self.obs.append(dict(rule=self.cur, ok=bool(ok), function=fn.full if isinstance(fn, Fn) else str(fn),
                             what=what, tag=tag, where=where,
                             witness=(fn.show(witness) if (witness and isinstance(fn, Fn)) else witness or [])))
        return bool(ok)


def run_groups(prop, flavour):
    data, cgs, stats = {}, {}, dict(units=[], functions=0, inlined=0, calls=0, branches=0, instructions=0)

    def one(item):
        name, g = item
        bcs = build.compile_all(g.units, flavour)
        opaque = (CONTAINERS if g.containers else []) + g.opaque
        pure = (PURE if g.containers else ["iox::RelativePointer::(computeRawPtr|getId|getOffset|searchId)"]) + g.pure
        spec = dict(roots=[{k: v for k, v in r.items() if v and k != "min"} for r in g.roots], opaque=opaque, pure=pure,
                    limit=g.limit, callgraph=g.callgraph)
        return name, g, build.extract(spec, bcs)
    build.tool()
    build.includes()
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        res = list(ex.map(one, prop.groups.items()))
    for name, g, o in res:
        for u in g.units:
            if u not in stats["units"]:
                stats["units"].append(u)
        if g.callgraph:
            cgs[name] = o["callgraph"]
        for r in g.roots:
            l = o["roots"].get(r["id"], [])
            fs = [Fn(x, o["locs"], g.fold) for x in l]
            if len(fs) < r["min"]:
                raise Broken("anchor vanished: root %s (%s) has %d instance(s), expected at least %d"
                             % (r["id"], r["base"], len(fs), r["min"]))
            for f in fs:
                if f.d["truncated"]:
                    raise Broken("graph of %s truncated" % f.base)
                stats["functions"] += 1
                stats["inlined"] += len(f.d["inlined"])
                for i in f.ins():
                    stats["instructions"] += 1
                    stats["calls"] += i.op == "call"
                    stats["branches"] += i.op in ("br", "switch") and len(i.ops) > 0
            data[r["id"]] = fs
    return data, cgs, stats


def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier, seed):
    t0 = time.time()
    flavours = ["release"] if tier == "quick" else ["release", "debug"]
    allobs, stats = [], None
    for fl in flavours:
        data, cgs, st = run_groups(prop, fl)
        stats = stats or st
        cx = Ctx(prop, data, cgs)
        cx.tier = tier
        cx.flavour = fl
        for rid, text, f, mn in prop.rules:
            cx.cur = rid
            n0 = len(cx.obs)
            try:
                f(cx)
            except SearchCap as e:
                raise Broken(str(e))
            if len(cx.obs) - n0 < mn:
                # what the rule is about (the required events, branches or accesses) is not there any more
                cx.ob(False, prop.pid, "the constructs rule %s requires are missing: %d instance(s) found, at least %d required"
                      % (rid, len(cx.obs) - n0, mn), "instances", at="(whole rule)")
        allobs += cx.obs
    texts = {rid: text for rid, text, _, _ in prop.rules}
    bad, kn, seen = [], [], set()
    kf = known()
    for o in allobs:
        if o["ok"]:
            continue
        key = "%s/%s" % (o["rule"], o["tag"])
        if key in seen:
            continue
        seen.add(key)
        k = [x for x in kf if x[0] == prop.pid and x[1] == key]
        (kn if k else bad).append((key, o, k[0][2] if k else None))
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    per = {}
    for o in allobs:
        p = per.setdefault(o["rule"], dict(rule=texts[o["rule"]], obligations=0, discharged=0))
        p["obligations"] += 1
        p["discharged"] += o["ok"]
    rep = dict(property=prop.pid, tier=tier, seed=seed, level="other",
               coverage=dict(explanation=prop.explain.strip() or "static rules over the normalised flow graphs",
                             units_compiled=stats["units"], functions_analysed=stats["functions"],
                             callees_inlined=stats["inlined"], call_sites=stats["calls"], branches=stats["branches"],
                             instructions=stats["instructions"], build_flavours=flavours,
                             obligations=len(allobs), discharged=sum(o["ok"] for o in allobs), rules=per,
                             samples=[dict(rule=o["rule"], function=o["function"][:160], where=o["where"], obligation=o["what"])
                                      for o in allobs[:: max(1, len(allobs) // 12)]][:14]),
               assumptions=prop.assume, wall_s=round(time.time() - t0, 2), violations=len(bad))
    json.dump(rep, open(os.path.join(ev, prop.pid + ".json"), "w"), indent=1)
    for key, o, d in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, d))
    print("%s: %d functions, %d obligations, %d discharged, %.1fs" % (prop.pid, stats["functions"], len(allobs), sum(o["ok"] for o in allobs), time.time() - t0))
    if bad:
        rp = os.path.join(ev, prop.pid + ".violation.json")
        json.dump([dict(key=key, rule_text=texts[o["rule"]], **o) for key, o, _ in bad], open(rp, "w"), indent=1)
        for key, o, _ in bad:
            print("  [%s] %s\n     at %s in %s" % (key, o["what"], o["where"], o["function"][:140]))
            for w in o["witness"]:
                print("       - " + w)
        print("VIOLATION property=%s replay=%s" % (prop.pid, rp))
        return 1
    return 0
