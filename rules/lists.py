"""Per-element decision tables of loops over containers (iterator, pointer or index loops).

Walk simulates a function and follows each iterator over the named containers.  For every element the record
(conditions decided about it, events performed on it, flags) is collected from the moment an iterator reaches it until the walk has
moved two elements on or the list is finished; spec(list, record) decides whether that is what should happen to an element."""
import re

from engine.ir import Ins, Val
from rules.lib import call, MEMCPY, v_const

BEGIN = re.compile(r"::c?begin$")
END = re.compile(r"::c?end$")
INC = re.compile(r"Iterator\w*::operator\+\+")
DEREF = re.compile(r"(Iterator\w*::(to_ptr|operator\*|operator->)|::iter_from_index)$")
CMP = re.compile(r"Iterator\w*::operator([!=]=)|^iox::operator([!=]=)")
AT = re.compile(r"::(operator\[\]|at)$")
G = 4


class Rec:
    __slots__ = ("ev", "lit", "at", "lst")

    def __init__(self, lst, ev, lit, at):
        self.lst, self.ev, self.lit, self.at = lst, ev, lit, at

    def n(self, name):
        return sum(1 for e in self.ev if e == name)

    def __repr__(self):
        return "%s: ev=%s lit=%s" % (self.lst, self.ev, self.lit)


class Walk:
    """lists: name -> regex matched against the access path of the container; lits: name -> fn(walk, st, k, pol) -> (element, truth)|None;
    events: name -> fn(walk, st, ins) -> element | None | 'other' (not an element); kills: names of events after which the element is gone;
    glits/gevents: conditions / events of the function as a whole (kept in the row)."""

    def __init__(self, f, lists, lits=None, events=None, kills=(), glits=None, gevents=None, cap=2, max_states=60000, restart=True):
        self.f, self.lists, self.lits, self.events, self.kills = f, {n: re.compile(r) for n, r in lists.items()}, lits or {}, events or {}, set(kills)
        self.glits, self.gevents, self.cap, self.max_states = glits or {}, gevents or {}, cap, max_states
        self.errors, self.recs, self.rows, self.begun = [], [], [], set()
        self.errseen = set()
        self.recseen = set()
        self._run()

    def err(self, what, at):
        if (what, at.id) not in self.errseen:
            self.errseen.add((what, at.id))
            self.errors.append((what, at))

    # --- which list
    def list_of(self, v):
        p = self.f.path(v)
        for n, r in self.lists.items():
            if r.search(p):
                return n
        return None

    def key(self, v):
        v = self.f.strip(v)
        r = self.f.root_of(v)
        return ("it", r.id) if isinstance(r, Ins) and r.op == "alloca" else ("it", v.id) if isinstance(v, Ins) else None

    def elem(self, v, st, depth=0):
        """element a value refers to: pointer into it, port object made from it, accessor of it"""
        f = self.f
        while depth < 40:
            depth += 1
            v = f.strip(v)
            if not isinstance(v, Ins):
                return None
            if ("el", v.id) in st:
                return st[("el", v.id)]
            if v.op in ("field", "getelementptr", "load", "bitcast"):
                if v.op == "getelementptr" and self.key(v) in st:
                    pass
                x = st.get(("mem", f.root_of(v.ops[0]).id)) if v.op == "load" and isinstance(f.root_of(v.ops[0]), Ins) and f.root_of(v.ops[0]).op == "alloca" else None
                if x is not None:
                    return x
                v = v.ops[0]
            elif v.op == "alloca":
                return st.get(("obj", v.id)) or st.get(("mem", v.id))
            elif v.op == "phi":
                if ("it", v.id) in st and isinstance(st[("it", v.id)][1], int):
                    return st[("it", v.id)]
                x = st.get(("phi", v.id))
                if x is None:
                    return None
                v = x
            elif v.op == "call" and v.ops:
                v = v.ops[0]
            else:
                return None
        return None

    def _finish(self, st, L, g, at):
        """element g of list L is done"""
        k = ("rec", L, g)
        r = st.pop(k, None)
        if r is None:
            return
        key = (L, r, tuple(sorted((k[1], v) for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit" and getattr(self.glits.get(k[1]), "stable", False))))
        if key not in self.recseen:
            self.recseen.add(key)
            d = {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit" and getattr(self.glits.get(k[1]), "stable", False)}
            d.update(r[1])
            self.recs.append(Rec(L, r[0], d, at))

    def _reach(self, st, L, g, at):
        old = (g - 2) % G
        self._finish(st, L, old, at)
        st[("rec", L, g)] = ((), ())
        st[("last", L)] = g
        st.pop(("dead", L, g), None)

    def _leave(self, st, L, at):
        """the walk over L is left: the element examined last is 'left', earlier ones are done"""
        g = st.get(("last", L))
        if st.get(("rec", L, g)) == ((), ()) and ("rec", L, (g - 1) % G) in st:
            st.pop(("rec", L, g))
            g = (g - 1) % G
        for x in range(G):
            r = st.get(("rec", L, x))
            if r is None:
                continue
            if x == g:
                st[("rec", L, x)] = (r[0] + ("left",), r[1])
            self._finish(st, L, x, at)

    def _begin(self, st, L, at):
        """a walk over L starts; elements of a walk that was left are recorded"""
        if st.get(("beg", L)) and not st.get(("fin", L)):
            self._leave(st, L, at)
        for k in [k for k in st if isinstance(k, tuple) and k[:2] in (("dead", L), ("rec", L))]:
            del st[k]
        st.pop(("fin", L), None)
        st[("beg", L)] = True
        self.begun.add(L)
        self._reach(st, L, 0, at)

    def _end(self, st, L, g, at):
        st.pop(("rec", L, g), None)
        for x in range(G):
            self._finish(st, L, x, at)
        st[("fin", L)] = True
        st.pop(("last", L), None)
        for k in [k for k in st if isinstance(k, tuple) and ((k[0] in ("it", "el", "obj", "mem") and isinstance(st[k], tuple) and st[k][0] == L) or k[:2] == ("dead", L))]:
            if k[0] != "it" or st[k][1] != "end":
                del st[k]

    def _live(self, st, e, i):
        if e is not None and isinstance(e[1], int) and st.get(("dead", e[0], e[1])):
            self.err("an element is used after it was removed", i)

    def _run(self):
        f = self.f
        ixphis = {}
        for i in f.ins():
            if i.op == "call" and i.callee and AT.search(i.callee) and len(i.ops) > 1:
                L = self.list_of(i.ops[0])
                x = f.strip(i.ops[1])
                if L and isinstance(x, Ins) and x.op == "phi":
                    ixphis[x.id] = L

        # loops that test the index at their head: the test is about the index itself
        headtest = {f.strip(o).id for i in f.ins() if i.op == "icmp" for o, q in (i.ops[:2], i.ops[1::-1]) if isinstance(f.strip(o), Ins) and isinstance(f.strip(q), Ins) and f.strip(q).id in ixphis}

        def step(st, i):
            if i.op == "phi":
                s = f.strip(st.get(("phi", i.id))) if ("phi", i.id) in st else None
                if i.id in ixphis:
                    L = ixphis[i.id]
                    if v_const(0)(s) if s is not None else False:
                        st[("it", i.id)] = (L, 0)
                        self._begin(st, L, i)
                    elif s is not None and f.affine(s) == {("v", i.id): 1, 1: 1} and ("it", i.id) in st:
                        g = (st[("it", i.id)][1] + 1) % G
                        st[("it", i.id)] = (L, g)
                        self._reach(st, L, g, i)
                elif isinstance(s, Ins) and s.op == "call" and BEGIN.search(s.callee or "") and len(s.ops) == 1 and self.list_of(s.ops[0]):
                    L = self.list_of(s.ops[0])
                    st[("it", i.id)] = (L, 0)
                    self._begin(st, L, i)
                elif isinstance(s, Ins) and s.op == "getelementptr" and f.strip(s.ops[0]) is i and ("it", i.id) in st and isinstance(st[("it", i.id)][1], int):
                    L, g = st[("it", i.id)]
                    self._live(st, (L, g), i)
                    g = (g + 1) % G
                    st[("it", i.id)] = (L, g)
                    self._reach(st, L, g, i)
            elif i.op == "store":
                r = f.root_of(i.ops[1])
                if isinstance(r, Ins) and r.op == "alloca":
                    e = self.elem(i.ops[0], st) if isinstance(f.strip(i.ops[0]), Ins) else None
                    if e is not None:
                        st[("mem", r.id)] = e
            elif i.op == "call" and i.callee and i.ops:
                c = i.callee
                if BEGIN.search(c) and len(i.ops) == 2:
                    L = self.list_of(i.ops[1])
                    if L:
                        st[self.key(i.ops[0])] = (L, 0)
                        self._begin(st, L, i)
                elif END.search(c) and len(i.ops) == 2:
                    L = self.list_of(i.ops[1])
                    if L:
                        st[self.key(i.ops[0])] = (L, "end")
                elif INC.search(c):
                    post = len(i.ops) == 3
                    k = self.key(i.ops[1] if post else i.ops[0])
                    if k in st and isinstance(st[k][1], int):
                        L, g = st[k]
                        self._live(st, (L, g), i)
                        if post:
                            st[self.key(i.ops[0])] = (L, g)
                        g = (g + 1) % G
                        st[k] = (L, g)
                        self._reach(st, L, g, i)
                elif DEREF.search(c):
                    k = self.key(i.ops[0])
                    if k in st and isinstance(st[k][1], int):
                        self._live(st, st[k], i)
                        st[("el", i.id)] = st[k]
                elif AT.search(c) and len(i.ops) > 1 and self.list_of(i.ops[0]):
                    x = f.strip(i.ops[1])
                    if isinstance(x, Ins) and ("it", x.id) in st:
                        st[("el", i.id)] = st[("it", x.id)]
                elif (MEMCPY.search(c) or re.search(r"Iterator\w*::(\w*Iterator\w*|operator=)(<.*>)?$", c)) and len(i.ops) > 1 and self.key(i.ops[1]) in st:
                    st[self.key(i.ops[0])] = st[self.key(i.ops[1])]
                elif len(i.ops) > 1 and (re.search(r"::get\w+$", c) or (lambda t: len(t) > 1 and t[-1] == t[-2])(re.sub(r"<.*?>", "", c).split("::"))):
                    r = f.root_of(i.ops[0])
                    if isinstance(r, Ins) and r.op == "alloca":
                        e = self.elem(i.ops[1], st)
                        if e is not None:
                            st[("obj", r.id)] = e
                        else:
                            st.pop(("obj", r.id), None)
            for n, p in self.events.items():
                e = p(self, st, i)
                if e is None:
                    continue
                if not isinstance(e, tuple) or ("rec",) + e not in st:
                    self.err("'%s' is not applied to the element being visited" % n, i)
                    continue
                self._live(st, e, i)
                ev, li = st[("rec",) + e]
                if sum(1 for x in ev if x == n) < self.cap:
                    st[("rec",) + e] = (ev + (n,), li)
                if n in self.kills:
                    st[("dead",) + e] = True
            for n, p in self.gevents.items():
                if p(i):
                    ev = st.get("ev", ())
                    if sum(1 for x in ev if x == n) < self.cap:
                        st["ev"] = ev + (n,)
            return None

        def edge(st, k, pol):
            # end of a list
            if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and CMP.search(k[1].callee or ""):
                m = CMP.search(k[1].callee)
                eq = ((m.group(1) or m.group(2)) == "==") == pol
                a, b = (self.key(o) for o in k[1].ops[:2])
                for x, y in ((a, b), (b, a)):
                    if x in st and y in st and st[y][1] == "end" and isinstance(st[x][1], int) and st[x][0] == st[y][0]:
                        if eq:
                            self._end(st, st[x][0], st[x][1], k[1])
                            return None
            if k[0] == "eq" and isinstance(k[1], Ins) and isinstance(k[2], Ins):
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if b.op == "call" and END.search(b.callee or "") and len(b.ops) == 1 and self.list_of(b.ops[0]):
                        L = self.list_of(b.ops[0])
                        if pol and ("it", a.id) in st:
                            self._end(st, L, st[("it", a.id)][1], a)
                        elif pol and a.op == "getelementptr" and ("it", getattr(f.strip(a.ops[0]), "id", None)) in st:
                            self._end(st, L, (st[("it", f.strip(a.ops[0]).id)][1] + 1) % G, a)
                        elif pol and a.op == "call" and BEGIN.search(a.callee or ""):
                            st[("beg", L)] = True
                            self.begun.add(L)
                            st[("fin", L)] = True
            if k[0] in ("ult", "slt") and not pol and isinstance(k[2], Ins) and k[2].op == "call" and re.search(r"::size$", k[2].callee or "") and self.list_of(k[2].ops[0]):
                L = self.list_of(k[2].ops[0])
                if isinstance(k[1], Ins):
                    x = k[1]
                    if ("it", x.id) in st:
                        self._end(st, L, st[("it", x.id)][1], x)
                    elif k[2].id not in headtest:
                        for y in [y for y in st if isinstance(y, tuple) and y[0] == "it" and isinstance(st[y], tuple) and st[y][0] == L and f.affine(x) == {("v", y[1]): 1, 1: 1}]:
                            self._end(st, L, (st[y][1] + 1) % G, x)
                            break
                elif v_const(0)(k[1]):
                    st[("beg", L)] = st[("fin", L)] = True
                    self.begun.add(L)
            for n, p in self.lits.items():
                r = p(self, st, k, pol)
                if r is None:
                    continue
                e, t = r
                if e is None or ("rec",) + e not in st:
                    continue
                ev, li = st[("rec",) + e]
                d = dict(li)
                if d.get(n, t) is not t and getattr(p, "stable", True):
                    return False
                d[n] = t
                st[("rec",) + e] = (ev, tuple(sorted(d.items())))
            for n, p in self.glits.items():
                t = p(k, pol)
                if t is not None:
                    if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                        return False
                    st[("lit", n)] = t
            return None
        for r, st, tr in f.simulate({}, step, edge, cap=self.max_states):
            self.rows.append((r, st, tr))
            for L in self.lists:
                if st.get(("beg", L)) and not st.get(("fin", L)):
                    self._leave(dict(st), L, r)

    # --- obligations
    def check(self, cx, spec, what, tag, lists=None, left_ok=None, optional=False):
        """each list is walked to its end and spec(rec) holds for every element's record.
        left_ok(rec): the loop may be left at an element with this record"""
        f = self.f
        for w, at in self.errors:
            cx.ob(False, f, w, tag + "/use", at)
        for L in lists or self.lists:
            recs = [r for r in self.recs if r.lst == L]
            w = None
            for r, st, tr in self.rows:
                if not optional and not st.get(("beg", L)) or (st.get(("beg", L)) and not st.get(("fin", L)) and left_ok is None):
                    w = tr
                    break
            cx.ob(w is None and bool(self.rows), f, "all elements of the %s list are visited on every path" % L, "%s/%s/all" % (tag, L), None, w)
            cx.ob(bool(recs), f, "elements of the %s list are visited" % L, "%s/%s/some" % (tag, L))
            bad = [r for r in recs if "left" not in r.ev and not spec(r)] + [r for r in recs if "left" in r.ev and not (left_ok and left_ok(r))]
            cx.ob(not bad, f, "%s%s" % (what, " (%s)" % bad[0] if bad else ""), "%s/%s/each" % (tag, L), bad[0].at if bad else None)
        return self
