"""Abstract interpretation of small functions (loop heads: one havocked iteration) in the domain of linear forms with bounds and congruences.

A value is  c + sum(k_i * s_i)  over symbols s_i with an interval and a known power-of-two divisor, plus optionally what is
known of the value itself modulo a power of two.  Rounding (x & -2^n) introduces a remainder symbol with its exact range.
Comparisons that the domain cannot decide fork the path and are kept as constraints."""
from .ir import Ins, Val
from .build import Broken

M64 = 1 << 64


class Sym:
    n = 0

    def __init__(self, name, lo, hi, div=1):
        Sym.n += 1
        self.name, self.lo, self.hi, self.div, self.id = name, lo, hi, div, Sym.n

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class L:
    """linear form"""
    __slots__ = ("t", "c", "m")

    def __init__(self, t=None, c=0, m=None):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c, self.m = c, m

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        m = None
        if self.m or o.m:
            n = min((self.m or (M64, 0))[0], (o.m or (M64, 0))[0])
            a, b = self.res(n), o.res(n)
            if a is not None and b is not None:
                m = (n, (a + b) % n)
        return L(t, self.c + o.c, m)

    def scale(self, k):
        return L({s: v * k for s, v in self.t.items()}, self.c * k)

    def __sub__(self, o):
        r = self + o.scale(-1)
        if self.m or o.m:
            n = min((self.m or (M64, 0))[0], (o.m or (M64, 0))[0])
            a, b = self.res(n), o.res(n)
            if a is not None and b is not None:
                r.m = (n, (a - b) % n)
        return r

    def res(self, n):
        """value modulo n (a power of two), or None"""
        if self.m and self.m[0] % n == 0:
            return self.m[1] % n
        if all((v * s.div) % n == 0 for s, v in self.t.items()):
            return self.c % n
        return None

    def lo(self):
        return self.c + sum(v * (s.lo if v > 0 else s.hi) for s, v in self.t.items())

    def hi(self):
        return self.c + sum(v * (s.hi if v > 0 else s.lo) for s, v in self.t.items())

    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        return "+".join(["%d*%s" % (v, s) if v != 1 else "%s" % s for s, v in self.t.items()] + [str(self.c)])


def K(n):
    return L({}, n)


def S(sym):
    return L({sym: 1}, 0)


class Path:
    def __init__(self):
        self.env, self.mem, self.cons, self.events, self.notes, self.init, self.heads = {}, {}, [], [], [], {}, {}

    def copy(self):
        p = Path()
        p.env, p.mem, p.cons, p.events, p.notes = dict(self.env), dict(self.mem), list(self.cons), list(self.events), list(self.notes)
        p.init, p.heads = dict(self.init), dict(self.heads)
        return p


def provably_ge0(l, cons, depth=2):
    """l >= 0 from bounds and constraints (each constraint: form >= 0)"""
    if l.lo() >= 0:
        return True
    if depth:
        for c in cons:
            # l - c >= 0 and c >= 0  =>  l >= 0
            for k in (1,):
                if provably_ge0(l - c.scale(k), [x for x in cons if x is not c], depth - 1):
                    return True
    return False


class Interp:
    def __init__(self, fn, args, fields, calls=None, cons=()):
        """args: {n: L}, fields: f(path) -> L or None (initial memory), calls: f(ins, operand values) -> L or None"""
        self.fn, self.args, self.fields, self.calls = fn, args, fields, calls
        self.out, self.panics, self.cons0, self.loops, self.entries = [], [], list(cons), [], []

    def val(self, v, p):
        if isinstance(v, Val):
            if v.k == "c":
                c = v.v
                return K(c)
            if v.k == "null":
                return K(0)
            if v.k == "arg":
                return self.args.get(v.v) or self.fresh("arg%d" % v.v, p)
            return self.fresh("val", p)
        return p.env.get(v.id) if v.id in p.env else self.fresh(v.op, p)

    def fresh(self, name, p, lo=0, hi=M64 - 1, div=1):
        return S(Sym(name, lo, hi, div))

    def sg(self, c):
        return c - M64 if c >= 1 << 63 else c

    def norm(self, l):
        """wrap whole forms into [0, 2^64) where the bounds allow"""
        if l.hi() < 0:
            return L(l.t, l.c + M64, l.m)
        if l.lo() >= M64:
            return L(l.t, l.c - M64, l.m)
        return l

    def bits(self, ins):
        t = ins.d.get("ty") or "i64"
        return int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else 64

    def key(self, v, p):
        """address of an access: (name of the cell, linear form).  Array cells are named by the form of their index."""
        fn = self.fn
        s = fn.strip(v)
        a = p.env.get(s.id) if isinstance(s, Ins) else None
        if isinstance(a, tuple):
            a = None
        idx = []
        x, n = s, 0
        while isinstance(x, Ins) and x.op in ("field", "getelementptr") and n < 40:
            n += 1
            if x.op == "getelementptr":
                for o in x.ops[1:]:
                    t = fn.strip(o)
                    if not isinstance(t, Val):
                        idx.append(repr(self.val(t, p)))
            x = fn.strip(x.ops[0])
        if isinstance(s, Ins) and s.op not in ("field", "getelementptr", "alloca"):
            return repr(a), a
        if isinstance(x, Ins) and x.op in ("phi", "call"):
            return repr(a), a
        return fn.path(v) + ("{%s}" % ",".join(idx) if idx else ""), a

    def step(self, i, p):
        op, fn = i.op, self.fn
        o = [self.val(x, p) for x in i.ops] if op not in ("phi", "br", "switch", "call", "ret") else []
        r = None
        if op in ("zext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            r = o[0]
        elif op == "sext":
            r = o[0]
        elif op == "trunc":
            b = self.bits(i)
            x = self.norm(o[0])
            if x.lo() >= 0 and x.hi() < (1 << b):
                r = x
            else:
                c = x.const()
                if c is not None:
                    r = K(c % (1 << b))
                else:
                    # kept exact; the caller has to show that it fits (note)
                    r = x
                    p.notes.append(("trunc", i, x, (1 << b) - 1))
        elif op == "add":
            r = o[0] + K(self.sg(o[1].c)) if o[1].const() is not None else (K(self.sg(o[0].c)) + o[1] if o[0].const() is not None else o[0] + o[1])
        elif op == "sub":
            a = K(self.sg(o[0].c)) if o[0].const() is not None else o[0]
            r = a - o[1]
        elif op in ("mul", "shl"):
            for a, b in ((0, 1), (1, 0)):
                c = o[b].const()
                if c is not None and (op == "mul" or b == 1):
                    r = o[a].scale(c if op == "mul" else 1 << c)
                    break
        elif op == "xor":
            if o[1].const() is not None and o[0].const() is not None:
                r = K((o[0].c ^ o[1].c) % M64)
            elif i.d.get("ty") == "i1" and o[1].const() in (1, -1):
                r = K(1) - o[0]
        elif op == "and":
            for a, b in ((0, 1), (1, 0)):
                c = o[b].const()
                if c is None:
                    continue
                x = o[a]
                if x.const() is not None:
                    r = K((x.c % M64) & (c % M64))
                    break
                c = self.sg(c % M64)
                if c < 0 and (-c) & (-c - 1) == 0:  # -2^n : round down
                    n = -c
                    r = x - self.rem(x, n, p)
                    r.m = (n, 0)
                    break
                if c > 0 and (c + 1) & c == 0:
                    r = self.rem(x, c + 1, p)
                    break
        elif op == "urem":
            c = o[1].const()
            if c and c & (c - 1) == 0:
                r = self.rem(o[0], c, p)
        elif op == "icmp":
            r = ("cmp", i.pred, self.norm(o[0]), self.norm(o[1]))
        elif op == "select":
            r = ("sel", p.env.get(i.ops[0].id) if isinstance(i.ops[0], Ins) else o[0], o[1], o[2])
        elif op in ("field", "getelementptr"):
            if "off" in i.d:
                r = o[0] + K(i.d["off"])
            elif i.d.get("sty") == "i8" and len(o) == 2:
                r = o[0] + o[1]
        elif op == "load":
            k, a = self.key(i.ops[0], p)
            if k in p.mem:
                r = p.mem[k]
            else:
                r = self.fields(k)
                if r is None:
                    r = self.fresh("*" + k, p, 0, (1 << self.bits(i)) - 1)
                p.mem[k] = r
                p.init[k] = r
        elif op == "store":
            k, a = self.key(i.ops[1], p)
            p.mem[k] = o[0]
            p.events.append(("store", k, a, o[0], i))
        elif op == "call":
            vs = [self.val(x, p) for x in i.ops]
            r = self.calls(i, vs) if self.calls else None
            p.events.append(("call", i, vs, [self.key(x, p)[0] if isinstance(x, Ins) else (fn.path(x) if isinstance(x, Val) else None) for x in i.ops]))
        p.env[i.id] = r if r is not None else self.fresh(op, p)

    def rem(self, x, n, p):
        known = x.res(n)
        if known is not None:
            return K(known)
        g = 1
        while g * 2 <= n and x.res(g * 2) is not None:
            g *= 2
        base = x.res(g)
        return S(Sym("rem%d" % n, base, n - g + base, 1))

    def decide(self, c, p):
        """-> True/False/None, and the constraint for each outcome"""
        if isinstance(c, L):
            k = c.const()
            if k is not None:
                return bool(k), None
            if c.lo() > 0:
                return True, None
            return None, None
        if c[0] == "cmp":
            _, pr, a, b = c
            if isinstance(a, tuple) or isinstance(b, tuple):
                return None, None
            d = a - b
            if pr in ("eq", "ne"):
                if d.const() is not None:
                    return ((d.c == 0) == (pr == "eq")), None
                if d.lo() > 0 or d.hi() < 0:
                    return pr == "ne", None
                return None, None
            pr = pr[1:]
            # truth: a pr b
            f = {"gt": d - K(1), "ge": d, "lt": d.scale(-1) - K(1), "le": d.scale(-1)}[pr]  # f >= 0 iff true
            if provably_ge0(f, p.cons):
                return True, None
            g = f.scale(-1) - K(1)
            if provably_ge0(g, p.cons):
                return False, None
            return None, (f, g)
        return None, None

    def loop_head(self, b):
        if not hasattr(self, "_heads"):
            # natural loops: target of an edge whose source it dominates is not needed, a DFS back edge is enough here
            heads, color = set(), {}
            st = [(self.fn.order[0], iter(self.succ(self.fn.order[0])))]
            color[self.fn.order[0]] = 1
            while st:
                n, it = st[-1]
                for m in it:
                    if color.get(m) == 1:
                        heads.add(m)
                    elif m not in color:
                        color[m] = 1
                        st.append((m, iter(self.succ(m))))
                        break
                else:
                    color[n] = 2
                    st.pop()
            self._heads = heads
        return b in self._heads

    def succ(self, b):
        t = self.fn.blocks[b][-1]
        return t.d.get("succ") or []

    def run(self, cap=4000):
        p0 = Path()
        p0.cons = list(self.cons0)
        stack = [(self.fn.order[0], None, p0, 0)]
        n = 0
        while stack:
            b, frm, p, depth = stack.pop()
            n += 1
            if n > cap or depth > 400:
                raise Broken("absint: too many paths in " + self.fn.base)
            blk = self.fn.blocks[b]
            if b in p.heads:  # second arrival at a loop head: the path ends here, what is carried round is kept
                back = {i.id: self.val(v, p) for i in blk if i.op == "phi" for v, f in zip(i.ops, i.d["from"]) if f == frm}
                self.loops.append((p, b, p.heads[b], back))
                continue
            new = {}
            for i in blk:
                if i.op == "phi":
                    for v, f in zip(i.ops, i.d["from"]):
                        if f == frm:
                            new[i.id] = self.val(v, p)
            if self.loop_head(b):
                p.entry = dict(new)
                self.entries.append((p.copy(), b, dict(new)))
                for i in blk:
                    if i.op == "phi":
                        new[i.id] = self.fresh("phi%d" % i.id, p)
                p.heads[b] = dict(new)
            p.env.update(new)
            dead = False
            for i in blk:
                if i.op == "phi":
                    continue
                if i.op == "unreachable":
                    self.panics.append((p, i))
                    dead = True
                    break
                if i.op == "ret":
                    self.out.append((p, self.val(i.ops[0], p) if i.ops else None, i))
                    dead = True
                    break
                if i.op == "br":
                    succ = i.d["succ"]
                    if not i.ops:
                        stack.append((succ[0], b, p, depth + 1))
                        dead = True
                        break
                    c = self.val(i.ops[0], p)
                    if isinstance(c, tuple) and c[0] == "sel":
                        t, w = None, None
                    else:
                        t, w = self.decide(c, p)
                    key = ("br", i.ops[0].id if isinstance(i.ops[0], Ins) else None)
                    for side, s in ((True, succ[0]), (False, succ[1])):
                        if t is not None and side != t:
                            continue
                        q = p.copy()
                        if w:
                            q.cons.append(w[0] if side else w[1])
                        if t is None:
                            if isinstance(i.ops[0], Ins):
                                q.env[i.ops[0].id] = K(1 if side else 0)
                            q.events.append(("br", i, side, c))
                        stack.append((s, b, q, depth + 1))
                    dead = True
                    break
                if i.op == "switch":
                    c = self.val(i.ops[0], p)
                    k = c.const() if isinstance(c, L) else None
                    done = False
                    for cv, t in i.d["cases"]:
                        if k is None or k == int(cv):
                            stack.append((t, b, p.copy(), depth + 1))
                            done = done or k is not None
                    if not done:
                        stack.append((i.d["default"], b, p.copy(), depth + 1))
                    dead = True
                    break
                self.step(i, p)
            if not dead:
                raise Broken("absint: unhandled terminator in " + self.fn.base)
        return self.out
