"""Flow graphs of irx as Python objects, with the queries the rules are written in."""
import re
from collections import deque

CASTS = {"bitcast", "zext", "sext", "trunc", "ptrtoint", "inttoptr", "freeze", "addrspacecast"}
SWAP = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}


class Val:
    """constant / argument / global operand"""
    __slots__ = ("k", "v", "x")

    def __init__(self, k, v=None, x=None):
        self.k, self.v, self.x = k, v, x

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)

    def __eq__(self, o):
        return isinstance(o, Val) and (self.k, self.v) == (o.k, o.v)

    def __hash__(self):
        return hash((self.k, str(self.v)))


def _conv(fn, x):
    if isinstance(x, int):
        return fn.byid.get(x, Val("gone", x))
    if "a" in x:
        return Val("arg", x["a"])
    if "c" in x:
        return Val("c", int(x["c"]), x.get("w"))
    if "null" in x:
        return Val("null")
    if "undef" in x:
        return Val("undef")
    if "g" in x:
        return Val("g", x["g"] + ("+%d" % x["off"] if x.get("off") else ""), x)
    if "ce" in x:
        return Val("ce", x["ce"] + str(x["ops"]), [_conv(fn, o) for o in x["ops"]])
    return Val("k", x.get("k"))


class Ins:
    __slots__ = ("fn", "d", "id", "op", "ops", "blk", "pos", "callee", "full", "fld", "cls", "ord", "ford", "rmw",
                 "pred", "users", "ty", "ind", "noret")

    def __init__(self, fn, d):
        self.fn, self.d = fn, d
        self.id, self.op = d["i"], d["op"]
        self.callee, self.full = d.get("callee"), d.get("full")
        self.fld, self.cls = d.get("fld"), d.get("cls")
        self.ord, self.ford, self.rmw = d.get("ord"), d.get("ford"), d.get("rmw")
        self.pred, self.ty = d.get("pred"), d.get("ty")
        self.noret = d.get("noret", False)
        self.ind = None
        self.users = []
        self.ops = ()

    @property
    def loc(self):
        """file:line of the construct in /repo, preferring the innermost frame inside /repo"""
        L = self.fn.locs
        k = self.d.get("loc", -1)
        best = None
        while k is not None and k >= 0:
            f, l, func, up = L[k]
            if "/usr/" not in f and l:
                best = (f, l, func)
                if not re.search(r"atomic\.hpp$|relative_pointer", f):
                    break
            k = up
        return best

    @property
    def at(self):
        b = self.loc
        if not b:
            return self.fn.src
        return "%s:%d (%s)" % (b[0].replace("/repo/", ""), b[1], b[2].split("::")[-1] if b[2] else "?")

    def chain(self):
        """names of the source functions this instruction comes from, innermost first"""
        L = self.fn.locs
        k = self.d.get("loc", -1)
        r = []
        while k is not None and k >= 0:
            r.append(L[k][2])
            k = L[k][3]
        return r

    def __repr__(self):
        return "%%%d=%s %s" % (self.id, self.op, self.callee or self.fld or self.pred or "")


class Fn:
    def __init__(self, d, locs, fold=False):
        self.d, self.locs = d, locs
        self.base, self.full = d["base"], d["full"]
        s = d.get("src")
        self.src = "%s:%d" % (s[0].replace("/repo/", ""), s[1]) if s else self.base
        self.byid = {}
        self.blocks = {}
        self.order = []
        for b in d["blocks"]:
            l = [Ins(self, i) for i in b["ins"]]
            self.blocks[b["b"]] = l
            self.order.append(b["b"])
            for p, i in enumerate(l):
                i.blk, i.pos = b["b"], p
                self.byid[i.id] = i
        for l in self.blocks.values():
            for i in l:
                i.ops = tuple(_conv(self, o) for o in i.d["ops"])
                if "ind" in i.d:
                    i.ind = _conv(self, i.d["ind"])
                for o in i.ops:
                    if isinstance(o, Ins):
                        o.users.append(i)
        self.succ = {b: (l[-1].d.get("succ") or []) if l else [] for b, l in self.blocks.items()}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        self.entry = self.order[0]
        self._cond = {}
        self._derive = {}
        if fold:
            self._fold_result()
            self._fold_reloads()
        self._prep_tracking()

    def _fold_result(self):
        """a local that is always moved (or copied) into the returned object and then destroyed is that object"""
        rets = self.rets()
        if not rets or any(r.ops for r in rets):
            return
        for a in [i for i in self.ins() if i.op == "alloca"]:
            uses = []
            for u in a.users:
                if u.op in ("field", "getelementptr", "phi", "select") or u.op in CASTS:
                    uses += [None]
                elif u.op in ("call", "load", "store"):
                    uses.append(u)
                else:
                    uses += [None]
            if None in uses or not uses:
                continue
            cls = lambda u: (u.callee or "").rsplit("::", 2)
            fwd = [u for u in uses if u.op == "call" and len(u.ops) == 2 and u.ops[1] is a and isinstance(u.ops[0], Val) and u.ops[0].k == "arg" and u.ops[0].v == 0
                   and len(cls(u)) == 3 and cls(u)[1] == cls(u)[2]]
            if not fwd:
                continue
            inert = [u for u in uses if u.op == "call" and (re.search(r"llvm\.lifetime", u.callee or "") or (u.callee or "").rsplit("::", 1)[-1].startswith("~"))]
            real = [u for u in uses if u not in fwd and u not in inert]
            if self._reach(real, {r.id for r in rets}, {u.id for u in fwd}) or self._reach(fwd, {u.id for u in real} | {u.id for u in fwd}, set()):
                continue
            if any(self._reach([u], {w.id for w in fwd}, set()) for u in inert if "~" in (u.callee or "")):
                continue
            drop = {u.id for u in fwd + inert}
            for b, l in self.blocks.items():
                l[:] = [i for i in l if i.id not in drop]
                for p, i in enumerate(l):
                    i.pos = p
                    if any(o is a for o in i.ops):
                        i.ops = tuple(fwd[0].ops[0] if o is a else o for o in i.ops)
            a.users = []

    def _reach(self, starts, goals, avoid):
        """plain reachability of one of the instructions in goals (ids) from after the starts, not through avoid"""
        todo = [(i.blk, i.pos + 1) for i in starts]
        seen = set()
        while todo:
            b, p = todo.pop()
            for i in self.blocks[b][p:]:
                if i.id in avoid:
                    break
                if i.id in goals:
                    return True
            else:
                for s in self.succ[b]:
                    if s not in seen:
                        seen.add(s)
                        todo.append((s, 0))
        return False

    _OFF = re.compile(r"^(\$[^.\[\]>*+]*)(?:\+(\d+))?$")
    _SZ = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "float": 4, "double": 8}

    def _overlap(self, p, pt, q, qt):
        """may the accesses of two places of the same local overlap"""
        a, b = self._OFF.match(p), self._OFF.match(q)
        if a and b and pt in self._SZ and qt in self._SZ:
            x, y = int(a.group(2) or 0), int(b.group(2) or 0)
            return x < y + self._SZ[qt] and y < x + self._SZ[pt]
        return "[]" in p or "[]" in q or p.startswith(q) or q.startswith(p)

    def _within(self, obj, p):
        """may the place p lie in the object at obj (same local); a callee that gets a subobject does not reach around it"""
        a, b = self._OFF.match(obj), self._OFF.match(p)
        if a and b:
            return int(b.group(2) or 0) >= int(a.group(2) or 0)
        if "[]" in obj or "[]" in p or a or b:
            return True
        return p.startswith(obj) or obj.startswith(p)

    def _fold_reloads(self):
        """uses of a load from a local variable are replaced by the value already loaded from (or stored to) the same place, when
        nothing can have written it in between (locals whose address is only handed out as first
        argument: result or this; a subobject handed out otherwise is left alone)"""
        priv, esc = {}, {}
        for a in self.ins():
            if a.op != "alloca":
                continue
            st, ok, calls = [a], True, {}
            seen = set()
            while st and ok:
                x = st.pop()
                for u in x.users:
                    if u.id in seen:
                        continue
                    if u.op in ("field", "getelementptr") or u.op in CASTS:
                        seen.add(u.id)
                        st.append(u)
                    elif u.op == "load":
                        pass
                    elif u.op == "store":
                        ok &= u.ops[0] is not x
                    elif u.op == "call":
                        if any(o is x for o in u.ops[1:]) and "llvm." not in (u.callee or ""):
                            if self.path(x) == self.path(a):
                                ok = False
                            esc.setdefault(a.id, []).append(self.path(x))
                        calls.setdefault(u.id, []).append(self.path(x))
                    else:
                        ok = False
            if ok:
                priv[a.id] = calls
        if not priv:
            return

        def flow(b, av, sub=None):
            av = dict(av)
            for i in self.blocks[b]:
                if i.op in ("load", "store") and not i.ord:
                    p = i.ops[0] if i.op == "load" else i.ops[1]
                    r = self.root_of(p)
                    if isinstance(r, Ins) and r.id in priv:
                        key = (r.id, self.path(p))
                        if any(self._within(q, key[1]) for q in esc.get(r.id, ())):
                            continue
                        if i.op == "load":
                            if key in av and "[]" not in key[1]:
                                v, ty = av[key]
                                if ty == i.ty:
                                    if sub is not None:
                                        sub[i.id] = v
                                    continue
                            av[key] = (i, i.ty)
                        else:
                            for k in [k for k in av if k[0] == r.id]:
                                if k == key or self._overlap(key[1], i.d.get("vty"), k[1], av[k][1]):
                                    del av[k]
                            v = i.ops[0]
                            av[key] = (v, i.d.get("vty"))
                elif i.op == "call":
                    for a, c in priv.items():
                        if i.id in c and not re.search(r"llvm\.lifetime\.", i.callee or ""):
                            for k in [k for k in av if k[0] == a]:
                                if any(self._within(q, k[1]) for q in c[i.id]):
                                    del av[k]
                elif i.op == "phi":
                    # a value computed in an earlier round of this loop is not the current one
                    for k in [k for k, v in av.items() if v[0] is i]:
                        del av[k]
            return av
        IN = {self.entry: {}}
        work = [self.entry]
        out = {}
        rounds = 0
        while work and rounds < 20 * len(self.order) + 100:
            rounds += 1
            b = work.pop(0)
            o = flow(b, IN[b])
            if out.get(b) == o and b in out:
                continue
            out[b] = o
            for s in self.succ[b]:
                if s not in IN:
                    IN[s] = dict(o)
                else:
                    m = {k: v for k, v in IN[s].items() if o.get(k) == v}
                    if m == IN[s] and s in out:
                        continue
                    IN[s] = m
                if s not in work:
                    work.append(s)
        if work:
            return
        sub = {}
        for b in self.order:
            if b in IN:
                flow(b, IN[b], sub)
        if not sub:
            return

        def get(o):
            n = 0
            while isinstance(o, Ins) and o.id in sub and n < 50:
                o = sub[o.id]
                n += 1
            return o
        for l in self.blocks.values():
            for i in l:
                new = tuple(get(o) for o in i.ops)
                if any(x is not y for x, y in zip(new, i.ops)):
                    i.ops = new
        # merged values that are all the same
        ch = True
        while ch:
            ch = False
            for l in self.blocks.values():
                for i in l:
                    if i.op == "phi" and i.id not in sub:
                        vs = [o for o in i.ops if o is not i]
                        if vs and all(o is vs[0] or (isinstance(o, Val) and o == vs[0]) for o in vs) and vs[0] is not i:
                            sub[i.id] = vs[0]
                            ch = True
            if ch:
                for l in self.blocks.values():
                    for i in l:
                        i.ops = tuple(get(o) for o in i.ops)
        for l in self.blocks.values():
            for i in l:
                i.users = []
        for l in self.blocks.values():
            for i in l:
                for o in i.ops:
                    if isinstance(o, Ins):
                        o.users.append(i)

    # ---------------------------------------------------------------- enumeration
    def ins(self):
        for b in self.order:
            yield from self.blocks[b]

    def calls(self, rx=None):
        r = re.compile(rx) if rx else None
        return [i for i in self.ins() if i.op in ("call", "invoke") and i.callee and (r is None or r.search(i.callee) or r.search(i.full))]

    def indirect(self):
        return [i for i in self.ins() if i.op in ("call", "invoke") and not i.callee]

    def rets(self):
        return [i for i in self.ins() if i.op == "ret"]

    def accesses(self, fld=None, ops=("load", "store", "atomicrmw", "cmpxchg")):
        r = re.compile(fld) if fld else None
        out = []
        for i in self.ins():
            if i.op in ops:
                a = self.addr(i)
                if r is None or r.search(a):
                    out.append(i)
        return out

    def loads(self, fld=None):
        return self.accesses(fld, ("load",))

    def stores(self, fld=None):
        return self.accesses(fld, ("store",))

    def writes(self, fld=None):
        return self.accesses(fld, ("store", "atomicrmw", "cmpxchg"))

    # ---------------------------------------------------------------- values
    @staticmethod
    def strip(v):
        while isinstance(v, Ins) and v.op in CASTS:
            v = v.ops[0]
        return v

    def ptr(self, i):
        if i.op in ("load", "atomicrmw", "cmpxchg"):
            return i.ops[0]
        if i.op == "store":
            return i.ops[1]
        return None

    def addr(self, i):
        """access path of a memory instruction, e.g. 'arg0.m_chunkManagement->m_referenceCounter'"""
        return self.path(self.ptr(i))

    def path(self, v, depth=0):
        v = self.strip(v)
        if depth > 40:
            return "..."
        if isinstance(v, Val):
            if v.k == "arg":
                return "arg%d" % v.v
            if v.k == "g":
                return "@" + (v.x.get("f") or v.v)
            if v.k == "c":
                return str(v.v)
            if v.k == "ce":
                return self.path(v.x[0], depth + 1) if v.x else "ce"
            return v.k
        if v.op == "field":
            b = self.path(v.ops[0], depth + 1)
            if v.cls.startswith("std::"):
                return b
            return b + "." + v.fld
        if v.op == "getelementptr":
            b = self.path(v.ops[0], depth + 1)
            if v.d.get("off", None) == 0:
                return b
            if "off" in v.d:
                return b + "+%d" % v.d["off"]
            return b + "[]"
        if v.op == "load":
            return "*" + self.path(v.ops[0], depth + 1)
        if v.op == "call":
            if v.callee == "iox::RelativePointer::computeRawPtr":
                return self.path(v.ops[0], depth + 1) + "->"
            n = (v.callee or "ind").split("::")
            return "%s(%s)" % ("::".join(n[-2:]), self.path(v.ops[0], depth + 1) if v.ops else "")
        if v.op == "alloca":
            return "$%s#%d" % (v.d.get("aty", "").split("::")[-1], v.id)
        if v.op == "phi":
            return "phi#%d" % v.id
        return "%s#%d" % (v.op, v.id)

    def term(self, v, depth=0):
        v = self.strip(v)
        if depth > 12:
            return "..."
        if isinstance(v, Val):
            return self.path(v)
        if v.op in ("field", "getelementptr", "load", "alloca"):
            return self.path(v)
        if v.op == "icmp":
            return "(%s %s %s)" % (self.term(v.ops[0], depth + 1), v.pred, self.term(v.ops[1], depth + 1))
        if v.op == "call":
            return "%s(%s)" % ((v.callee or "ind").split("::")[-1], ",".join(self.term(o, depth + 1) for o in v.ops))
        if v.op == "phi":
            return "phi#%d" % v.id
        if v.op == "extractvalue":
            return self.term(v.ops[0], depth + 1) + ".%s" % v.d.get("ix")
        return "%s(%s)" % (v.op + ("." + v.rmw if v.rmw else ""), ",".join(self.term(o, depth + 1) for o in v.ops))

    def affine(self, v, depth=0):
        """linear form modulo 2^64: {atom: coefficient, 1: constant}; atoms are SSA values or argument/constant tokens"""
        M = 1 << 64
        out = {}

        def add(d, k=1):
            for a, c in d.items():
                out[a] = (out.get(a, 0) + k * c) % M
        v = self.strip(v)
        if isinstance(v, Val):
            if v.k == "c":
                c = v.v
                return {1: c % M} if c else {}
            if v.k == "null":
                return {}
            return {("arg", v.v) if v.k == "arg" else (v.k, str(v.v)): 1}
        if depth < 40:
            if v.op == "add":
                add(self.affine(v.ops[0], depth + 1))
                add(self.affine(v.ops[1], depth + 1))
                return {a: c for a, c in out.items() if c}
            if v.op == "sub":
                add(self.affine(v.ops[0], depth + 1))
                add(self.affine(v.ops[1], depth + 1), -1)
                return {a: c for a, c in out.items() if c}
            if v.op in ("mul", "shl") and isinstance(self.strip(v.ops[1]), Val) and self.strip(v.ops[1]).k == "c":
                n = self.strip(v.ops[1]).v
                add(self.affine(v.ops[0], depth + 1), n if v.op == "mul" else (1 << n))
                return {a: c for a, c in out.items() if c}
            if v.op == "getelementptr" and "off" in v.d:
                add(self.affine(v.ops[0], depth + 1))
                out[1] = (out.get(1, 0) + v.d["off"]) % M
                return {a: c for a, c in out.items() if c}
            if v.op == "getelementptr" and v.d.get("sty") == "i8" and len(v.ops) == 2:
                add(self.affine(v.ops[0], depth + 1))
                add(self.affine(v.ops[1], depth + 1))
                return {a: c for a, c in out.items() if c}
        if v.op == "load":
            return {("load", self.path(v.ops[0])): 1}
        if v.op == "call" and v.callee == "iox::RelativePointer::computeRawPtr":
            return {("ptr", self.path(v)): 1}
        if v.op in ("mul",):
            # commutative product of two non-constants
            a, b = sorted([repr(sorted(map(repr, self.affine(o, depth + 1).items()))) for o in v.ops])
            return {("mul", a, b): 1}
        if v.op == "and":
            return {("and", repr(sorted(map(repr, self.affine(v.ops[0], depth + 1).items()))),
                     repr(sorted(map(repr, self.affine(v.ops[1], depth + 1).items())))): 1}
        return {("v", v.id): 1}

    def affine_eq(self, a, b):
        x = self.affine(a) if not isinstance(a, dict) else a
        y = self.affine(b) if not isinstance(b, dict) else b
        return x == y

    def derives(self, v, pred, through_calls=False, through_mem=True):
        """does the value v (backward slice) contain something satisfying pred?  Slices through casts, arithmetic,
        phis, field/element addresses, loads (address, and for locals everything written into them)."""
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, Val):
                if pred(x):
                    return True
                if x.k == "ce":
                    st.extend(x.x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                return True
            if x.op == "call" and not through_calls:
                continue
            st.extend(o for o in x.ops)
            if through_mem and (x.op == "alloca"):
                for w in self.writers(x):
                    if w.op == "store":
                        st.append(w.ops[0])
                    else:
                        if w.id not in seen:
                            seen.add(w.id)
                            if pred(w):
                                return True
                            if "memcpy" in (w.callee or "") or "memmove" in (w.callee or ""):
                                st.append(w.ops[1])
                            elif through_calls:
                                st.extend(w.ops)
        return False

    def mentions(self, v, rx, **kw):
        """the slice of v reads a field (access path), or calls a function, matching rx"""
        r = re.compile(rx)

        def p(x):
            if isinstance(x, Val):
                return bool(r.search(self.path(x)))
            if x.op == "field":
                return bool(r.search((x.cls or "") + "." + x.fld))
            if x.op == "call":
                return bool(x.callee and r.search(x.callee))
            return False
        return self.derives(v, p, **kw)

    def slice_calls(self, v):
        out = []

        def p(x):
            if isinstance(x, Ins) and x.op == "call":
                out.append(x)
            return False
        self.derives(v, p)
        return out

    def writers(self, alloca):
        """stores into / calls receiving the address of a local"""
        k = ("w", alloca.id)
        if k in self._derive:
            return self._derive[k]
        out, st, seen = [], [alloca], set()
        while st:
            x = st.pop()
            for u in x.users:
                if u.id in seen:
                    continue
                if u.op in ("field", "getelementptr", "phi") or u.op in CASTS:
                    seen.add(u.id)
                    st.append(u)
                elif u.op == "store" and self.strip(u.ops[1]) is not None and u.ops[1] is x:
                    seen.add(u.id)
                    out.append(u)
                elif u.op == "call" and "llvm." not in (u.callee or ""):
                    seen.add(u.id)
                    out.append(u)
                elif u.op == "call" and u.ops and u.ops[0] is x:
                    seen.add(u.id)
                    out.append(u)
        self._derive[k] = out
        return out

    def root_of(self, v):
        """underlying object of an address: strips fields, elements and casts (not loads)"""
        v = self.strip(v)
        while isinstance(v, Ins) and v.op in ("field", "getelementptr"):
            v = self.strip(v.ops[0])
        return v

    # ---------------------------------------------------------------- conditions
    def lit(self, v, pol=True):
        """normalise an i1 value to (key, polarity)"""
        v0 = v
        while True:
            if isinstance(v0, Ins) and v0.op == "xor" and isinstance(v0.ops[1], Val) and v0.ops[1].k == "c":
                if v0.ops[1].v & 1:
                    pol = not pol
                v0 = v0.ops[0]
                continue
            if isinstance(v0, Ins) and v0.op in ("trunc", "zext", "freeze") and (v0.ty == "i1" or v0.op != "trunc"):
                v0 = v0.ops[0]
                continue
            break
        if isinstance(v0, Ins) and v0.op == "icmp":
            a, b, p = self.strip(v0.ops[0]), self.strip(v0.ops[1]), v0.pred
            # (x == 0) / (x != 0) over an i1-ish value
            if p in SWAP:
                a, b, p = b, a, SWAP[p]
            if p == "ne":
                p, pol = "eq", not pol
            if p == "ule":
                a, b, p, pol = b, a, "ult", not pol
            if p == "sle":
                a, b, p, pol = b, a, "slt", not pol
            if p == "eq" and isinstance(a, Val) and not isinstance(b, Val):
                a, b = b, a
            if p == "eq" and isinstance(b, Val) and b.k == "c" and b.x == 1 and b.v == 0:
                return self.lit(a, not pol)
            if p == "eq" and isinstance(b, Val) and b.k == "c" and b.v == 0 and isinstance(a, Ins) and (a.ty == "i1" or a.op == "icmp"):
                return self.lit(a, not pol)
            # x < 1  <=>  x == 0 (unsigned); 0 < x <=> x != 0
            if p == "ult" and isinstance(b, Val) and b.k == "c" and b.v == 1:
                return (("eq", a, Val("c", 0, b.x)), pol)
            if p == "ult" and isinstance(a, Val) and a.k == "c" and a.v == 0:
                return (("eq", b, Val("c", 0, a.x)), not pol)
            return ((p, a, b), pol)
        return (("b", v0, None), pol)

    def edges(self):
        """(block, successor index, DNF of implied literals)"""
        for b in self.order:
            t = self.blocks[b][-1] if self.blocks[b] else None
            if t is None:
                continue
            if t.op == "br" and len(t.ops) == 1:
                for k, pol in ((0, True), (1, False)):
                    yield b, self.succ[b][k], self.dnf(t.ops[0], pol), t
            elif t.op == "switch":
                v = t.ops[0]
                cs = t.d["cases"]
                bysucc = {}
                for c, s in cs:
                    bysucc.setdefault(s, []).append(int(c))
                d = t.d["default"]
                for s, l in bysucc.items():
                    if s != d:
                        yield b, s, [[(("eq", self.strip(v), Val("c", c)), True)] for c in l], t
                if d not in bysucc:
                    yield b, d, [[(("eq", self.strip(v), Val("c", int(c))), False) for c, _ in cs]], t

    def _boolop(self, v):
        """(op, operands, polarity) of a conjunction / disjunction of truth values, also when computed in integers (flag &= cond)"""
        pol = True
        n = 0
        while isinstance(v, Ins) and n < 6:
            n += 1
            if v.op in ("and", "or"):
                if v.ty == "i1" or all(self._boolish(o) for o in v.ops):
                    return v.op, v.ops, pol
                return None
            if v.op == "icmp" and v.d.get("pred") in ("eq", "ne") and isinstance(v.ops[1], Val) and v.ops[1].k == "c" and v.ops[1].v == 0:
                w = self.strip(v.ops[0])
                if not (isinstance(w, Ins) and w.op in ("and", "or")):
                    return None
                if v.d["pred"] == "eq":
                    pol = not pol
                v = w
            elif v.op in ("zext", "trunc", "freeze"):
                v = v.ops[0]
            else:
                return None
        return None

    def _boolish(self, o, depth=0):
        o = self.strip(o)
        if isinstance(o, Val):
            return o.k == "c" and o.v in (0, 1)
        return isinstance(o, Ins) and (o.ty == "i1" or o.op == "icmp" or (o.op in ("and", "or") and depth < 6 and all(self._boolish(x, depth + 1) for x in o.ops)))

    def dnf(self, v, pol, depth=0):
        while isinstance(v, Ins) and v.op == "xor" and isinstance(v.ops[1], Val) and v.ops[1].k == "c" and v.ops[1].v & 1:
            v, pol = v.ops[0], not pol
        while isinstance(v, Ins) and v.op in ("freeze",):
            v = v.ops[0]
        bo = self._boolop(v) if depth < 6 else None
        if bo is not None:
            op, ops, p0 = bo
            if not p0:
                pol = not pol
            conj = (op == "and") == pol
            A, B = (self.dnf(self.strip(o) if isinstance(self.strip(o), Ins) else o, pol, depth + 1) for o in ops)
            if conj:
                return [x + y for x in A for y in B]
            return A + B
        return [[self.lit(v, pol)]]

    # ---------------------------------------------------------------- path search
    def _prep_tracking(self):
        """which SSA values decide branches in more than one place (correlated conditions)"""
        cnt = {}
        for b in self.order:
            t = self.blocks[b][-1] if self.blocks[b] else None
            if t is None:
                continue
            if t.op == "br" and len(t.ops) == 1:
                for conj in self.dnf(t.ops[0], True):
                    for (k, _) in conj:
                        key = self._tkey(k)
                        cnt[key] = cnt.get(key, 0) + 1
            elif t.op == "switch":
                key = ("x", self.strip(t.ops[0]))
                cnt[key] = cnt.get(key, 0) + 2
        self.tracked = {k for k, n in cnt.items() if n > 1}
        # phis with constants that reach a branch
        self.tphi = set()
        for b in self.order:
            for i in self.blocks[b]:
                if i.op == "phi" and i.ty and (i.ty.startswith("i") or any(isinstance(o, Val) and o.k == "g" for o in i.ops)):
                    # tracked when it feeds a branch / comparison / other tracked phi
                    self.tphi.add(i)
        keep = set()
        for p in self.tphi:
            st, seen = [p], set()
            hit = False
            while st and not hit:
                x = st.pop()
                for u in x.users:
                    if u.id in seen:
                        continue
                    seen.add(u.id)
                    if u.op in ("br", "switch"):
                        hit = True
                        break
                    if u.op in ("icmp", "xor", "phi", "and", "or", "trunc", "zext", "freeze"):
                        st.append(u)
            if hit:
                keep.add(p)
        self.tphi = keep
        self.defs_in = {}

    @staticmethod
    def _tkey(k):
        if k[0] == "eq" and isinstance(k[2], Val) and k[2].k in ("c", "null"):
            return ("x", k[1])
        return k

    def _norm(self, k):
        def h(x):
            return x.id if isinstance(x, Ins) else (("V", x.k, str(x.v)) if isinstance(x, Val) else x)
        return (k[0], h(k[1]), h(k[2]))

    def _eval(self, v, env):
        """constant value of v under env (phi -> const / alias), or None"""
        v = self.strip(v)
        n = 0
        while isinstance(v, Ins) and v.op == "phi" and ("p", v.id) in env and n < 20:
            v = env[("p", v.id)]
            n += 1
            v = self.strip(v)
        if isinstance(v, Val):
            return v if v.k in ("c", "null") else v
        return v

    def _decide(self, v, env):
        """truth of an i1 value under env: True/False/None"""
        v = self._eval(v, env)
        if isinstance(v, Val):
            if v.k == "c":
                return bool(v.v & 1)
            return None
        if v.op == "xor" and isinstance(v.ops[1], Val) and v.ops[1].k == "c" and v.ty == "i1":
            r = self._decide(v.ops[0], env)
            return None if r is None else (r != bool(v.ops[1].v & 1))
        bo = self._boolop(v)
        if bo is not None:
            op, ops, p0 = bo
            a, b = self._decide(ops[0], env), self._decide(ops[1], env)
            if op == "and":
                r = False if a is False or b is False else True if a and b else None
            else:
                r = True if a or b else False if a is False and b is False else None
            return r if p0 or r is None else not r
        k, pol = self.lit(v)
        if k[0] in ("eq", "ult", "slt"):
            a, b = self._eval(k[1], env), self._eval(k[2], env)
            r = None
            if isinstance(a, Val) and isinstance(b, Val) and a.k in ("c", "null") and b.k in ("c", "null"):
                x = a.v if a.k == "c" else 0
                y = b.v if b.k == "c" else 0
                if k[0] == "eq":
                    r = x == y
                elif k[0] == "ult":
                    r = x < y
            elif k[0] == "eq" and isinstance(a, Val) and isinstance(b, Val) and a.k == "g" and b.k == "g" and a.x["g"] == b.x["g"]:
                r = a.x.get("off", 0) == b.x.get("off", 0)
            if r is None and a is b and k[0] == "eq" and isinstance(a, Ins):
                r = True
            if r is None:
                nk = self._norm((k[0], a, b))
                if ("l", nk) in env:
                    r = env[("l", nk)]
                elif k[0] == "eq" and isinstance(b, Val) and b.k in ("c", "null") and isinstance(a, Ins):
                    e = env.get(("e", a.id))
                    if e is not None and e != (b.v if b.k == "c" else 0):
                        r = False
            return None if r is None else (r if pol else not r)
        nk = self._norm((k[0], self._eval(k[1], env), None))
        if ("l", nk) in env:
            r = env[("l", nk)]
            return r if pol else not r
        return None

    def _assume(self, v, val, env):
        """extend env with v == val (i1)"""
        for conj in ([self.dnf(v, val)[0]] if len(self.dnf(v, val)) == 1 else []):
            for (k, pol) in conj:
                if self._tkey(k) not in self.tracked and not self._phi_rel(k):
                    continue
                a = self._eval(k[1], env) if k[1] is not None else None
                b = self._eval(k[2], env) if k[2] is not None else None
                nk = self._norm((k[0], a, b))
                env[("l", nk)] = pol
                if k[0] == "eq" and pol and isinstance(a, Ins) and isinstance(b, Val) and b.k in ("c", "null"):
                    env[("e", a.id)] = b.v if b.k == "c" else 0

    def _phi_rel(self, k):
        for x in k[1:]:
            if isinstance(x, Ins) and (x.op == "phi"):
                return True
            # a condition that some phi forwards
            if isinstance(x, Ins) and any(u in self.tphi for u in x.users):
                return True
        return False

    def _enter(self, b, frm, env):
        """env on entering block b from block frm"""
        l = self.blocks[b]
        ids = self.defs_in.get(b)
        if ids is None:
            ids = self.defs_in[b] = {i.id for i in l}
        new = {}
        for k, v in env.items():
            if k[0] == "l":
                nk = k[1]
                if nk[1] in ids or nk[2] in ids:
                    continue
            elif k[0] == "e" and k[1] in ids:
                continue
            elif k[0] == "p" and k[1] in ids:
                continue
            new[k] = v
        # an alias to a value redefined here is no longer valid
        for k in [k for k, v in new.items() if k[0] == "p" and isinstance(v, Ins) and v.id in ids]:
            del new[k]
        for i in l:
            if i.op != "phi":
                break
            if i in self.tphi and frm in i.d["from"]:
                x = i.ops[i.d["from"].index(frm)]
                x = self._eval(x, env)
                if isinstance(x, Val) and x.k in ("c", "null", "g"):
                    new[("p", i.id)] = x
                elif isinstance(x, Ins) and x.id not in ids:
                    new[("p", i.id)] = x
        return new

    def _succs(self, b, env):
        """feasible successors of block b under env: (successor, env there, condition DNF of the edge, terminator)"""
        l = self.blocks[b]
        t = l[-1]
        if t.op == "br" and len(t.ops) == 1:
            d = self._decide(t.ops[0], env)
            opts = [(0, True), (1, False)] if d is None else [(0, True)] if d else [(1, False)]
            for k, pol in opts:
                s = self.succ[b][k]
                e = dict(env)
                self._assume(t.ops[0], pol, e)
                yield s, self._enter(s, b, e), self._resolve(self.dnf(t.ops[0], pol), env), t
        elif t.op == "switch":
            v = self._eval(t.ops[0], env)
            cs = [(int(c), s) for c, s in t.d["cases"]]
            d = t.d["default"]
            known = v.v if (isinstance(v, Val) and v.k == "c") else env.get(("e", v.id)) if isinstance(v, Ins) else None
            if known is not None:
                opts = [(s, c) for c, s in cs if c == known] or [(d, None)]
            else:
                opts = [(s, c) for c, s in cs] + [(d, None)]
            x = self.strip(t.ops[0])
            for s, c in opts:
                if c is not None:
                    dn = [[(("eq", x, Val("c", c)), True)]]
                else:
                    dn = [[(("eq", x, Val("c", y)), False) for y, _ in cs]]
                e = dict(env)
                if c is not None and isinstance(v, Ins):
                    e[("e", v.id)] = c
                yield s, self._enter(s, b, e), self._resolve(dn, env), t
        else:
            for s in self.succ[b]:
                yield s, self._enter(s, b, env), [], t

    def _resolve(self, dnf, env):
        out = []
        for conj in dnf:
            r = []
            for (k, pol) in conj:
                pol0 = pol
                k2 = (k[0], self._eval(k[1], env) if k[1] is not None else None,
                      self._eval(k[2], env) if k[2] is not None else None)
                if k2[0] == "b" and isinstance(k2[1], Ins):
                    k2, pol = self.lit(k2[1], pol)
                    k2 = (k2[0], self._eval(k2[1], env), self._eval(k2[2], env) if k2[2] is not None else None)
                r.append((k2, pol))
                if (k2, pol) != (k, pol0):
                    r.append((k, pol0))  # the same fact about the merged value itself
            # alternatives contradicted by constants are not taken
            if len(dnf) > 1 and any(k[0] == "b" and isinstance(k[1], Val) and k[1].k == "c" and bool(k[1].v & 1) != pol for k, pol in r):
                continue
            out.append(r)
        return out or [[]]

    @staticmethod
    def _fz(e):
        return frozenset((k2, v2.id if isinstance(v2, Ins) else v2) for k2, v2 in e.items())

    def search(self, start, goal, avoid=None, avoid_edge=None, env0=None, cap=60000, at=None):
        """A feasible-looking path from start to an instruction satisfying goal, not passing an instruction in
        avoid nor an edge whose condition is accepted by avoid_edge(literal key, polarity).  start: None (function
        entry) or an Ins (search begins right after it) or a list of those.  Conditions tested more than once and
        constants merged by phis are tracked along the path.  Returns the trail (branches passed, goal) or None."""
        avoid = avoid or (lambda i: False)
        starts = start if isinstance(start, list) else [start]
        q = deque()
        seen = set()
        for s in starts:
            if s is None:
                q.append((self.entry if at is None else at, 0, dict(env0 or {}), ()))
            else:
                q.append((s.blk, s.pos + 1, dict(env0 or {}), (s,)))
        n = 0
        while q:
            b, pos, env, trail = q.popleft()
            n += 1
            if n > cap:
                raise SearchCap("path search cap in %s" % self.base)
            l = self.blocks[b]
            stop = False
            for i in l[pos:]:
                if goal(i):
                    return trail + (i,)
                if avoid(i):
                    stop = True
                    break
            if stop or not l:
                continue
            for s, e, dnf, t in self._succs(b, env):
                if avoid_edge and dnf and self._edge_hit(avoid_edge, dnf):
                    continue
                key = (s, self._fz(e))
                if key in seen:
                    continue
                seen.add(key)
                q.append((s, 0, e, trail + ((t,) if dnf else ())))
        return None

    def search_edge(self, lit, goal, avoid=None, avoid_edge=None, cap=60000):
        """like search, starting on every edge whose condition is accepted by lit(key, polarity)"""
        for b in self.order:
            if not self.blocks[b]:
                continue
            for s, e, dnf, t in self._succs(b, {}):
                if dnf and self._edge_hit(lit, dnf):
                    w = self.search(None, goal, avoid, avoid_edge, env0=e, cap=cap, at=s)
                    if w is not None:
                        return (t,) + tuple(w)
        return None

    def simulate(self, init, step, edge=None, cap=60000, phis=True, feasible=None):
        """typestate simulation: propagate abstract states (dicts) along every feasible path.  step(state, ins) may
        mutate the state and returns False to end the path; edge(state, literal key, polarity) likewise, called for
        every literal implied by the branch taken; feasible(state, literal key, polarity) -> False drops branches all of
        whose alternatives contain a contradicted literal.  Returns [(ret instruction, state, trail)]."""
        q = deque([(self.entry, {}, dict(init), ())])
        seen, out, n = set(), [], 0
        while q:
            b, env, st, trail = q.popleft()
            n += 1
            if n > cap:
                raise SearchCap("simulation cap in %s" % self.base)
            st = dict(st)
            dead = False
            for i in self.blocks[b]:
                if i.op == "ret":
                    out.append((i, st, trail + (i,)))
                if step(st, i) is False:
                    dead = True
                    break
            if dead or not self.blocks[b]:
                continue
            for s, e, dnf, t in self._succs(b, env):
                if feasible and dnf:
                    dnf = [c for c in dnf if all(feasible(st, k, pol) is not False for k, pol in c)]
                    if not dnf:
                        continue
                alts = []
                for conj in (dnf if edge and dnf and len(dnf) <= 8 else [()]):
                    s2 = dict(st)
                    if all(edge(s2, k, pol) is not False for k, pol in conj):
                        alts.append(s2)
                for s2 in alts:
                    # phis of pointers: let the rule see the incoming value
                    for i in (self.blocks[s] if phis else ()):
                        if i.op != "phi":
                            break
                        if b in i.d["from"] and (phis is True or i.id in phis):
                            x = self.strip(i.ops[i.d["from"].index(b)])
                            if isinstance(x, Ins) and x.op == "phi" and x.ty in ("i1", "i8") and isinstance(st.get(("phi", x.id)), Val):
                                x = st[("phi", x.id)]
                            s2[("phi", i.id)] = x
                    key = (s, self._fz(e), frozenset((k2, v2.id if isinstance(v2, Ins) else v2) for k2, v2 in s2.items()))
                    if key in seen:
                        continue
                    seen.add(key)
                    q.append((s, e, s2, trail + ((t,) if dnf else ())))
        return out

    def ret_phis(self):
        """phis the returned value is merged from"""
        out, todo = set(), [o for r in self.rets() for o in r.ops]
        while todo:
            v = self.strip(todo.pop())
            if isinstance(v, Ins) and v.op == "phi" and v.id not in out:
                out.add(v.id)
                todo += v.ops
            elif isinstance(v, Ins) and v.op in ("xor", "zext", "trunc", "freeze", "and", "or", "icmp"):
                todo += v.ops
        return out

    @staticmethod
    def _edge_hit(pred, dnf):
        """an edge is hit when every alternative of its condition contains a literal accepted by pred"""
        return all(any(pred(k, pol) for (k, pol) in conj) for conj in dnf)

    def ret_value(self, r, st=None):
        """value returned at r, phis resolved along the simulated path"""
        v = self.strip(r.ops[0]) if r.ops else None
        n = 0
        while isinstance(v, Ins) and v.op == "phi" and st is not None and ("phi", v.id) in st and n < 10:
            v = self.strip(st[("phi", v.id)])
            n += 1
        if isinstance(v, Ins) and v.op == "xor" and st is not None and isinstance(v.ops[1], Val) and v.ops[1].k == "c":
            w = self.strip(v.ops[0])
            while isinstance(w, Ins) and w.op == "phi" and ("phi", w.id) in st and n < 20:
                w = self.strip(st[("phi", w.id)])
                n += 1
            if isinstance(w, Val) and w.k == "c":
                return Val("c", (w.v ^ v.ops[1].v) & 1)
        return v

    # ---------------------------------------------------------------- rule primitives
    @staticmethod
    def _pset(x):
        if callable(x):
            return x
        s = {i.id for i in x}
        return lambda i: i.id in s

    def must_precede(self, e, before):
        """None, or a witness path from the entry (or from the previous occurrence of e) to e without `before`"""
        b = self._pset(before)
        return self.search(None, lambda i: i is e, b)

    def must_follow(self, e, after, exits=None):
        """None, or a witness path from e to an exit without `after`"""
        a = self._pset(after)
        ex = exits or (lambda i: i.op == "ret")
        return self.search(e, ex, a)

    def reaches(self, a, b, avoid=None):
        return self.search(a, self._pset(b) if not isinstance(b, Ins) else (lambda i: i is b), self._pset(avoid) if avoid else None)

    def unguarded(self, e, litpred, loop=True):
        """None, or a witness path to e on which no branch establishes a literal accepted by litpred.
        In loops the guard has to be re-established before every further execution of e."""
        w = self.search(None, lambda i: i is e, None, litpred)
        if w is None and loop:
            w = self.search(e, lambda i: i is e, None, litpred)
        return w

    def show(self, path):
        out = []
        for i in path or ():
            s = i.at
            if i.op in ("br", "switch") and i.ops:
                s += " [branch %s]" % self.term(i.ops[0])[:80]
            elif i.op == "call":
                s += " [call %s]" % (i.callee or "?").split("::")[-1]
            elif i.op == "ret":
                s += " [return]"
            if not out or out[-1] != s:
                out.append(s)
        return out[-14:]


class SearchCap(Exception):
    pass
