import os

from engine.core import Prop
from rules.lib import *

P = Prop("P25")
P.explain = """
Typestate of the object inside optional, variant, expected and unique_ptr.  The vocabulary types are instantiated over element types whose
special members are opaque; along every path of every operation, for each initial occupation of both operands and with the operands
distinct or identical, each storage is followed through empty and occupied (by which type, made from what), and at every return the
occupation has to be the one the tag announces and the one the operation promises."""
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "life.cpp")
P.group("l", [DRV], opaque=[r"^vd::[AB]::", r"^iox::storable_function::"], containers=False)
INV = (1 << 64) - 1
KINDS = {  # prefix: (tag, tag of an empty object, {tag: element type})
    "o": (r"m_hasValue$", 0, {1: "A"}),
    "v": (r"m_type_index$", INV, {0: "A", 1: "B"}),
    "x": (r"m_store\.data\.m_type_index$", None, {0: "A", 1: "B"}),
}
OPS = {
    "o": "none copy move from take place assign massign vassign vmassign emplace reset dtor value cvalue star arrow has bool".split(),
    "v": "none copy move assign massign vmassign0 vmassign1 emplace0 emplace1 emplace_at0 emplace_at1 dtor get0 get1 at0 at1".split(),
    "x": "copy move ok err assign massign dtor value cvalue star arrow error cerror has haserr bool".split(),
}
for k, l in OPS.items():
    for n in l:
        P.root("l", k + "_" + n, "vd::%s_%s" % (k, n))
for n in ("operator=", "unique_ptr", "release", "~unique_ptr", "swap"):
    P.root("l", "u_" + n, "iox::unique_ptr::" + n)
SPECIAL = re.compile(r"^vd::([AB])::(~?[AB]|operator=)$")


class Life(Sim):
    """st[('s', location)] = (type, origin): an object lives there; origin = what it was made from"""

    def __init__(self, f, kind, alias, free=False, two=True):
        self.alias, self.kind = alias, kind
        tag, none, types = KINDS[kind]
        v = {"d": (r"^arg[01]\." if alias else r"^arg0\.") + tag}
        if two and not alias:
            v["s"] = r"^arg1\." + tag
        super().__init__(f, v, hook=self.life, max_states=200000)
        self.types, self.none, self.free = types, none, free

    def loc(self, v, st, depth=0):
        l = super().loc(v, st, depth)
        return ("arg0", l[1]) if self.alias and l is not None and l[0] == "arg1" else l

    def _lit(self, k, pol, st):
        if k[0] == "eq" and len(k) > 2:
            a, b = (self.f.strip(x) for x in k[1:3])
            if all(isinstance(x, Ins) and x.op in ("field", "getelementptr") or isinstance(x, Val) and x.k == "arg" for x in (a, b)):
                la, lb = self.loc(a, st), self.loc(b, st)
                if la is not None and lb is not None and la[0] in ("arg0", "arg1") and lb[0] in ("arg0", "arg1"):
                    return (la == lb) == pol
        return super()._lit(k, pol, st)

    def begin(self, st):
        if st.get("begun"):
            return
        st["begun"] = True
        for n, a in (("d", "arg0"), ("s", "arg1")):
            t = self.types.get(self.asg.get(n))
            if t and not (n == "s" and self.alias):
                st[("s", a, self.off)] = (t, "init " + a)
        if self.elems.get("s"):
            st[("s", "arg1", 0)] = (self.elems["s"], "init arg1")

    def bad(self, st, what, i):
        st["bad"] = st.get("bad", ()) + ((what, i),)

    def life(self, sim, st, i):
        self.begin(st)
        m = SPECIAL.match(i.callee or "") if i.op == "call" else None
        if not m:
            return
        T, op = m.groups()
        l = self.loc(i.ops[0], st)
        k = ("s",) + l if l else None
        if k is None:
            self.bad(st, "an operation on an unknown place", i)
            return
        cur = st.get(k)
        if op[0] == "~":
            if cur is None:
                self.bad(st, "an object is destroyed that does not live", i)
            elif cur[0] != T:
                self.bad(st, "an object is destroyed as another type", i)
            st.pop(k, None)
            return
        org = None
        if len(i.ops) == 2:
            a = re.search(r"\(([^)]*)\)", (i.full or "").split("::")[-1]) or re.search(r"\(([^()]*)\)(?!.*\()", i.full or "")
            sig = a.group(1) if a else ""
            if sig.strip().startswith("vd::") or "&" in sig:
                s = self.loc(i.ops[1], st)
                sk = ("s",) + s if s else None
                src = st.get(sk)
                if src is None:
                    self.bad(st, "an object is taken over that does not live", i)
                elif src[0] != T:
                    self.bad(st, "an object is taken over as another type", i)
                org = src[1] if src else None
                if sk != k and "&&" in sig and src:
                    st[sk] = (src[0], "moved")
                if sk == k:
                    org = cur[1] if cur else None
            else:
                v = self.f.strip(i.ops[1])
                org = "int arg%s" % v.v if isinstance(v, Val) and v.k == "arg" else "int ?"
        else:
            org = "default"
        if op == "operator=":
            if cur is None:
                self.bad(st, "a value is assigned to an object that does not live", i)
            elif cur[0] != T:
                self.bad(st, "a value is assigned to an object of another type", i)
        elif cur is not None:
            self.bad(st, "an object is built over a living one", i)
        st[k] = (T, org)


def storage(cx):
    """offset of the storage per kind: where the elements of the first operand are built"""
    out = {}
    for k in KINDS:
        offs = {}
        for n in OPS[k]:
            for f in cx.fns(k + "_" + n):
                s = Life(f, k, False)
                for i in f.ins():
                    if i.op == "call" and SPECIAL.match(i.callee or "") and not i.callee.endswith("operator="):
                        l = s.loc(i.ops[0], {})
                        if l and l[0] == "arg0":
                            offs.setdefault(l[1], []).append(f)
        out[k] = offs
    return out


def run(f, kind, off, d=None, s=None, alias=False, elem=None):
    L = Life(f, kind, alias, two=elem is None)
    L.off, L.elems = off, {"s": elem}
    asg = {}
    if d is not None:
        asg["d"] = d
    if s is not None and not alias:
        asg["s"] = s
    rows = L.run(asg)
    return L, rows


def tagval(L, row, name):
    v = L.final(row, name)
    return v % (1 << 64) if isinstance(v, int) else v


def slot(L, row, a):
    L.begin(row.st)
    return row.st.get(("s", a, L.off))


def judge(cx, f, kind, off, tag, want, d=None, s=None, alias=False, elem=None, src=None, newtag=None):
    """want(L, row) -> text of what is wrong or None; generic: no lifetime error, occupation and tag agree, locals are gone"""
    L, rows = run(f, kind, off, d, s, alias, elem)
    types = L.types
    why, at = None, None
    for r in rows:
        L.begin(r.st)
        b = r.st.get("bad")
        if b:
            why, at = b[0]
        for k in r.st:
            if isinstance(k, tuple) and k[0] == "s" and k[1].startswith("$"):
                why = why or "a local copy is not destroyed"
        for n, a in (("d", "arg0"), ("s", "arg1")):
            if (n == "s" and (alias or s is None)) or tag == "dtor":
                continue
            t = tagval(L, r, n)
            o = slot(L, r, a)
            if types.get(t) != (o[0] if o else None) or (t not in types and t != L.none):
                why = why or "the tag of the %s says %s but %s lives there" % ({"d": "object", "s": "source"}[n], types.get(t, "nothing") if isinstance(t, int) else "something unknown", o[0] if o else "nothing")
        why = why or want(L, r)
        if why:
            break
    if not rows:
        why = "no path returns"
    state = ",".join("%s=%s" % (n, types.get(v, "empty")) for n, v in (("object", d), ("source", s)) if v is not None) + (",self" if alias else "")
    cx.ob(why is None, f, "%s(%s): %s" % (tag, state, why or "as promised"), "%s/%s" % (tag, state), at)


def states(kind):
    tag, none, types = KINDS[kind]
    return list(types) + ([none] if none is not None else [])


def holds_init(a, src, moved=None):
    """the object holds what src held"""
    def w(L, r):
        o = slot(L, r, a)
        t = L.types.get(L.asg.get({"arg0": "d", "arg1": "s"}[src], L.asg.get("d")))
        if (o[0] if o else None) != t:
            return "the result holds %s instead of %s" % (o[0] if o else "nothing", t or "nothing")
        if o and o[1] != "init " + src:
            return "the result is made from %s instead of the source" % o[1]
        return None
    return w


def both(*ws):
    return lambda L, r: next((x for x in (w(L, r) for w in ws) if x), None)


@P.rule("R1", "optional, variant and expected: every operation leaves exactly the object alive that the tag announces, made from the right source", min=70)
def typestate(cx):
    offs = storage(cx)
    for k in KINDS:
        tag, none, types = KINDS[k]
        f0 = cx.fn(k + "_copy")
        cx.ob(len(offs[k]) == 1, f0, "all operations use the same storage %s" % sorted(offs[k]), k + "/storage")
        if not offs[k]:
            continue
        off = max(offs[k], key=lambda o: len(offs[k][o]))
        fn = lambda n: cx.fn(k + "_" + n)
        S = states(k)
        # construction: the tag before is garbage
        if "none" in OPS[k]:
            judge(cx, fn("none"), k, off, "none", lambda L, r: "something lives in an empty object" if slot(L, r, "arg0") else None)
        for n in ("copy", "move"):
            for s in S:
                w = [holds_init("arg0", "arg1")]
                if n == "copy":
                    w.append(holds_init("arg1", "arg1"))
                judge(cx, fn(n), k, off, n, both(*w), s=s)
        for n, T, org in (("place", "A", "int arg1"), ("ok", "A", "int arg1"), ("err", "B", "int arg1")):
            if n in OPS[k]:
                judge(cx, fn(n), k, off, n, lambda L, r, T=T, org=org: None if slot(L, r, "arg0") == (T, org) else "the object is not made from the arguments")
        for n in ("from", "take"):
            if n in OPS[k]:
                judge(cx, fn(n), k, off, n, lambda L, r, n=n: None if slot(L, r, "arg0") == ("A", "init arg1") and (n == "take" or r.st.get(("s", "arg1", 0)) == ("A", "init arg1")) else "the object is not made from the argument", elem="A")
        # assignment
        for n in ("assign", "massign"):
            for d in S:
                for s in S:
                    w = [holds_init("arg0", "arg1")]
                    if n == "assign":
                        w.append(holds_init("arg1", "arg1"))
                    judge(cx, fn(n), k, off, n, both(*w), d=d, s=s)
                judge(cx, fn(n), k, off, n, holds_init("arg0", "arg0"), d=d, alias=True)
        for n, T in (("vassign", "A"), ("vmassign", "A"), ("vmassign0", "A"), ("vmassign1", "B")):
            if n in OPS[k]:
                for d in S:
                    if k == "v" and d == none:
                        continue  # documented precondition: a variant must hold the type that is assigned
                    other = types.get(d) not in (None, T)
                    # a variant keeps its other type: the assignment is refused
                    judge(cx, fn(n), k, off, n,
                          (lambda L, r, T=T, d=d: None if slot(L, r, "arg0") == (types[d], "init arg0") else "a refused assignment changes the object") if other else
                          (lambda L, r, T=T: None if slot(L, r, "arg0") == (T, "init arg1") else "the object does not hold the assigned value"), d=d, elem=T)
        for n, T in (("emplace", "A"), ("emplace0", "A"), ("emplace1", "B"), ("emplace_at0", "A"), ("emplace_at1", "B")):
            if n in OPS[k]:
                for d in S:
                    judge(cx, fn(n), k, off, n, lambda L, r, T=T: None if slot(L, r, "arg0") == (T, "int arg1") else "the object is not made from the arguments", d=d)
        gone = lambda L, r: "the object still lives" if slot(L, r, "arg0") else None
        for n in ("reset", "dtor"):
            if n in OPS[k]:
                for d in S:
                    judge(cx, fn(n), k, off, n, gone, d=d)


@P.rule("R2", "the object can only be reached while it lives: access to an empty or other alternative terminates or gives null", min=30)
def access(cx):
    offs = storage(cx)
    for k in KINDS:
        tag, none, types = KINDS[k]
        if not offs[k]:
            continue
        off = max(offs[k], key=lambda o: len(offs[k][o]))
        for n, T, mode in (("value", "A", "panic"), ("cvalue", "A", "panic"), ("star", "A", "panic"), ("arrow", "A", "panic"), ("error", "B", "panic"), ("cerror", "B", "panic"),
                           ("get0", "A", "null"), ("get1", "B", "null"), ("at0", "A", "null"), ("at1", "B", "null"),
                           ("has", "A", "bool"), ("bool", "A", "bool"), ("haserr", "B", "bool")):
            if n not in OPS[k]:
                continue
            f = cx.fn(k + "_" + n)
            for d in states(k):
                L, rows = run(f, k, off, d=d)
                there = types.get(d) == T
                why = None
                for r in rows:
                    v = L.val(r.ret.ops[0], r.st)
                    l = L.loc(r.ret.ops[0], r.st) if mode != "bool" and not isinstance(v, int) else None
                    if isinstance(v, Ins) and v.op == "phi" and mode != "bool":
                        l = L.loc(v, r.st)
                    if r.st.get("bad"):
                        why = r.st["bad"][0][0]
                    if mode == "bool":
                        why = why or (None if v == int(there) else "answers %s" % v)
                    elif there:
                        why = why or (None if l == ("arg0", off) else "gives something else than the object")
                    elif mode == "null":
                        why = why or (None if v == 0 else "gives a pointer to an object that does not live")
                    else:
                        why = why or "gives an object that does not live"
                if not rows and (there or mode != "panic"):
                    why = "never returns"
                cx.ob(why is None, f, "%s(%s): %s" % (n, types.get(d, "empty"), why or "as promised"), "%s/%s/%s" % (k, n, types.get(d, "empty")))


@P.rule("R3", "unique_ptr: the object is deleted once, with the deleter it came with, by whoever owns it last", min=12)
def unique(cx):
    DEL = call(r"^iox::storable_function::operator\(\)$")
    for rid in ("u_operator=", "u_~unique_ptr", "u_release", "u_unique_ptr", "u_swap"):
        for f in cx.fns(rid):
            n = rid[2:]
            two = n == "operator=" or n == "swap" or (n == "unique_ptr" and f.full.replace(" ", "").endswith("&&)"))
            own = nonnull(v_path(r"^\*?arg0\.m_ptr$"))
            given = nonnull(v_arg(1))
            off = next((S.loc(f.ptr(i), {})[1] for S in [Sim(f, {})] for i in f.ins() if i.op in ("load", "store") and re.search(r"^arg[01]\.m_ptr$", f.addr(i))), None)
            if off is None:
                cx.ob(False, f, "the pointer is not used", n + "/pointer")
                continue
            moved = lambda i: i.op == "call" and re.search(r"^iox::storable_function::(operator=|storable_function)$", i.callee or "") is not None
            to = lambda rx: (lambda i: moved(i) and re.search(rx, f.path(i.ops[0])) is not None)
            ev = {"del": DEL, "setdel": to(r"^arg0\.m_deleter$")}
            S = Sim(f, {}, events=ev, lits={"own": own, "given": given, "self": equals(v_arg(0), v_arg(1))}, max_states=100000)
            rows = S.run({})
            cx.ob(bool(rows), f, "the operation returns", n + "/returns")
            init = lambda r, a: S.at(r, a, off)
            is_init = lambda v, a: v == ("init", a, off) or (isinstance(v, Ins) and v.op == "load" and re.search(r"^%s\.m_ptr$" % a, f.addr(v)) is not None)
            for r in rows:
                d, s = S.at(r, "arg0", off), S.at(r, "arg1", off)
                if r.lit.get("self") is True:
                    cx.ob(r.n("del") == 0 and d == ("init", "arg0", off), f, "assigning an object to itself keeps it", n + "/self", r.ret, r.trail)
                    continue
                if n in ("operator=", "~unique_ptr"):
                    cx.ob(r.lit.get("own") is not None and r.n("del") == (1 if r.lit["own"] else 0), f, "the owned object is deleted once, nothing if there is none", n + "/delete", r.ret, r.trail)
                    if r.n("del") and r.n("setdel"):
                        cx.ob(r.before("del", "setdel"), f, "with the deleter it came with", n + "/deleter", r.ret, r.trail)
                else:
                    cx.ob(r.n("del") == 0, f, "nothing is deleted", n + "/delete", r.ret, r.trail)
                if n == "operator=" or (n == "unique_ptr" and two):
                    cx.ob(is_init(d, "arg1") and s == 0, f, "the object goes over to the new owner and the old one is empty", n + "/over", r.ret, r.trail)
                    cx.ob(r.n("setdel") == 1, f, "its deleter goes with it", n + "/with", r.ret, r.trail)
                elif n == "unique_ptr":
                    v = d
                    cx.ob(isinstance(v, Val) and v.k == "arg" and v.v == 1, f, "the given object is owned", n + "/own", r.ret, r.trail)
                    cx.ob(r.lit.get("given") is True, f, "a null pointer is refused", n + "/null", r.ret, r.trail)
                elif n == "~unique_ptr":
                    pass
                elif n == "release":
                    v = S.val(r.ret.ops[0], r.st)
                    cx.ob(is_init(v, "arg0") and d == 0, f, "the object is handed out and no longer owned", n + "/out", r.ret, r.trail)
                elif n == "swap":
                    cx.ob(is_init(d, "arg1") and is_init(s, "arg0"), f, "the objects are exchanged", n + "/swap", r.ret, r.trail)
            for c in f.calls(r"^iox::storable_function::operator\(\)$"):
                a = f.strip(c.ops[1]) if len(c.ops) > 1 else None
                r0 = f.root_of(a) if a is not None else None
                vals = [f.strip(i.ops[0]) for i in f.ins() if i.op == "store" and f.root_of(i.ops[1]) is r0] if isinstance(r0, Ins) and r0.op == "alloca" else [a]
                cx.ob(bool(vals) and all(isinstance(v, Ins) and v.op == "load" and re.search(r"^arg0\.m_ptr$", f.addr(v)) is not None for v in vals) and re.search(r"^arg0\.m_deleter$", f.path(c.ops[0])) is not None, f,
                      "the owned object is what is deleted", n + "/which", c)
