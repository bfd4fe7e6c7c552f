"""Rule idioms shared by the property modules."""
import re

from engine.ir import CASTS, Fn, Ins, Val  # noqa: F401
from engine.build import Broken  # noqa: F401

STRONG_REL = ("release", "acq_rel", "seq_cst")
STRONG_ACQ = ("acquire", "acq_rel", "seq_cst")


# ------------------------------------------------------------------ event predicates
def call(rx, arg=None):
    """event: call of a function whose name matches rx (optionally: access path of argument n matches)"""
    r = re.compile(rx)

    def p(i):
        if i.op != "call" or not i.callee or not (r.search(i.callee) or r.search(i.full or "")):
            return False
        if arg:
            n, ax = arg
            return n < len(i.ops) and re.search(ax, i.fn.path(i.ops[n])) is not None
        return True
    return p


def store(path, value=None, ord=None):
    r = re.compile(path)

    def p(i):
        if i.op != "store" or not r.search(i.fn.addr(i)):
            return False
        if ord and i.ord not in ord:
            return False
        return value is None or value(i.fn.strip(i.ops[0]))
    return p


def load(path):
    r = re.compile(path)
    return lambda i: i.op == "load" and r.search(i.fn.addr(i)) is not None


def rmw(path, op=None, delta=None):
    r = re.compile(path)

    def p(i):
        if i.op != "atomicrmw" or not r.search(i.fn.addr(i)):
            return False
        if op and i.rmw != op:
            return False
        if delta is not None:
            return isinstance(i.ops[1], Val) and i.ops[1].k == "c" and i.ops[1].v == delta
        return True
    return p


def cas(path):
    r = re.compile(path)
    return lambda i: i.op == "cmpxchg" and r.search(i.fn.addr(i)) is not None


def anyof(*ps):
    return lambda i: any(p(i) for p in ps)


def isconst(n):
    return lambda v: isinstance(v, Val) and v.k == "c" and v.v == n


def isnull(v):
    return isinstance(v, Val) and (v.k == "null" or (v.k == "c" and v.v == 0))


def is_ret(i):
    return i.op == "ret"


# ------------------------------------------------------------------ literals: f(key, polarity) -> truth of the named condition, or None
def truth_of(pred):
    """boolean result of an instruction satisfying pred (call returning bool, rmw on a bool, load of a flag ...)"""
    def p(k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and pred(k[1]):
            return pol
        if k[0] == "eq" and isinstance(k[1], Ins) and isinstance(k[2], Val) and k[2].k == "c" and k[2].v in (0, 1) and pred(k[1]):
            return pol if k[2].v == 1 else (not pol)
        if k[0] == "eq" and isinstance(k[1], Ins) and isinstance(k[2], Val) and k[2].k == "null" and pred(k[1]):
            return not pol
        # extractvalue of a cmpxchg
        return None
    return p


def truth_call(rx):
    c = call(rx)
    return truth_of(c)


def cas_success(pred=None):
    def q(i):
        return i.op == "extractvalue" and i.d.get("ix") == [1] and isinstance(i.ops[0], Ins) and i.ops[0].op == "cmpxchg" \
            and (pred is None or pred(i.ops[0]))
    return truth_of(q)


def equals(pa, pb):
    """condition a == b, in either order"""
    def p(k, pol):
        if k[0] != "eq":
            return None
        if (pa(k[1]) and pb(k[2])) or (pa(k[2]) and pb(k[1])):
            return pol
        return None
    return p


def less(pa, pb):
    """condition a < b (unsigned or signed), true/false"""
    def p(k, pol):
        if k[0] in ("ult", "slt") and pa(k[1]) and pb(k[2]):
            return pol
        return None
    return p


def nonnull(pv):
    """condition v != null/0"""
    def p(k, pol):
        if k[0] == "eq" and isnull(k[2]) and pv(k[1]):
            return not pol
        if k[0] == "b" and pv(k[1]):
            return pol
        return None
    return p


def holds(lit, want=True):
    """edge predicate for search/unguarded: the literal is established with truth `want`"""
    return lambda k, pol: lit(k, pol) is want


def either(*edges):
    return lambda k, pol: any(e(k, pol) for e in edges)


# ------------------------------------------------------------------ value predicates
def v_path(rx):
    """value whose access path matches rx (a load of that field, or its address)"""
    r = re.compile(rx)

    def p(v):
        if isinstance(v, Ins):
            return r.search(v.fn.path(v)) is not None
        return False
    return p


def v_reads(fn, rx, **kw):
    """value whose slice reads a field / calls a function matching rx"""
    return lambda v: fn.mentions(v, rx, **kw)


def v_is(x):
    return lambda v: v is x


def v_in(xs):
    ids = {x.id for x in xs}
    return lambda v: isinstance(v, Ins) and v.id in ids


def v_arg(n):
    return lambda v: isinstance(v, Val) and v.k == "arg" and v.v == n


def v_const(*ns):
    return lambda v: isinstance(v, Val) and v.k == "c" and (not ns or v.v in ns)


# ------------------------------------------------------------------ decision tables
class Row:
    __slots__ = ("ret", "ev", "lit", "trail", "st")

    def __init__(self, ret, ev, lit, trail, st):
        self.ret, self.ev, self.lit, self.trail, self.st = ret, ev, lit, trail, st

    def n(self, name):
        return sum(1 for e in self.ev if e == name)

    def before(self, a, b):
        """every a precedes every b in this row (True when either is absent)"""
        ia = [k for k, e in enumerate(self.ev) if e == a]
        ib = [k for k, e in enumerate(self.ev) if e == b]
        return not ia or not ib or max(ia) < min(ib)

    def __repr__(self):
        return "ev=%s lit=%s" % (self.ev, self.lit)


def table(f, events, lits=None, cap=2, order=True, max_states=60000):
    """all combinations of (event sequence, named condition outcomes) over the feasible paths entry -> return.
    Events repeated in loops are kept up to `cap` times."""
    lits = lits or {}

    def step(st, i):
        for n, p in events.items():
            if p(i):
                ev = st.get("ev", ())
                if sum(1 for e in ev if e == n) < cap:
                    st["ev"] = ev + (n,) if order else tuple(sorted(ev + (n,)))
        return None

    def edge(st, k, pol):
        for n, p in lits.items():
            t = p(k, pol)
            if t is not None:
                if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                    return False  # the same two-valued tag cannot be read differently
                st[("lit", n)] = t
        return None
    rows = []
    for r, st, tr in f.simulate({}, step, edge, cap=max_states, phis=f.ret_phis()):
        rows.append(Row(r, st.get("ev", ()), {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st))
    return rows


def check_rows(cx, f, rows, cond, what, tag):
    """obligation: cond(row) for every row; the first failing row is the witness"""
    for r in rows:
        if not cond(r):
            return cx.ob(False, f, "%s (events %s, conditions %s)" % (what, list(r.ev), {k: v for k, v in r.lit.items() if isinstance(v, (bool, int, str))}), tag, r.ret, r.trail)
    return cx.ob(bool(rows), f, what, tag)


# ------------------------------------------------------------------ one-line obligations
def req_examined(cx, f, ev, lit, what, tag):
    """after each event the branch taken depends on its outcome before the function returns or repeats it"""
    seen = either(holds(lit), holds(lit, False))
    req_some(cx, f, matching(f, ev), what, tag + "/some")
    for e in matching(f, ev):
        w = f.search(e, anyof(is_ret, ev), None, seen)
        cx.ob(w is None, f, what, tag + "/examined", e, w)


def req_guard(cx, f, e, edge, what, tag, loop=True):
    w = f.unguarded(e, edge, loop)
    return cx.ob(w is None, f, what, tag, e, w)


def req_before(cx, f, e, before, what, tag):
    w = f.must_precede(e, before)
    return cx.ob(w is None, f, what, tag, e, w)


def req_after(cx, f, e, after, what, tag, exits=None):
    w = f.must_follow(e, after, exits)
    return cx.ob(w is None, f, what, tag, e, w)


def req_some(cx, f, l, what, tag):
    return cx.ob(bool(l), f, what, tag)


def req_never_after(cx, f, a, b, what, tag, avoid=None):
    w = f.search(a, f._pset(b), f._pset(avoid) if avoid else None)
    return cx.ob(w is None, f, what, tag, a, w)


def matching(f, pred):
    return [i for i in f.ins() if pred(i)]


def on_all_returns(cx, f, pred, what, tag, unless=None):
    """every path entry -> return passes an instruction satisfying pred, or an edge accepted by unless"""
    w = f.search(None, is_ret, f._pset(pred) if not callable(pred) else pred, unless)
    return cx.ob(w is None, f, what, tag, None, w)


def held(f, lock, unlock, e):
    """witness path on which e executes without the lock held, or None (recursive locks: nesting is counted)"""
    L, U = (lock if callable(lock) else call(lock)), (unlock if callable(unlock) else call(unlock))
    bad = []

    def step(st, i):
        if L(i):
            st["h"] = min(st["h"] + 1, 4)
        elif U(i):
            st["h"] = max(st["h"] - 1, 0)
        if i is e and not st["h"]:
            bad.append(i)
            return False
        return None
    f.simulate({"h": 0}, step, phis=False)
    return bad or None


def balanced(f, lock, unlock, init=0):
    """witness return reached with the lock still held (or released too often), or None"""
    L, U = (lock if callable(lock) else call(lock)), (unlock if callable(unlock) else call(unlock))

    def step(st, i):
        if L(i):
            st["h"] = min(st["h"] + 1, 4)
        elif U(i):
            st["h"] = max(st["h"] - 1, -2)
        return None
    for r, st, tr in f.simulate({"h": init}, step, phis=False):
        if st["h"]:
            return tr
    return None


# ------------------------------------------------------------------ loops over iox::vector (and other containers with begin/end)
def vec_elem(f, ptr, vec):
    """how the element pointer ptr runs over the container whose access path matches vec: ('it', phi) | ('ix', phi) | ('any', None) | None"""
    p = f.strip(ptr)
    if isinstance(p, Ins) and p.op == "phi":
        for x in p.ops:
            s = f.strip(x)
            if isinstance(s, Ins) and s.op == "call" and re.search(r"::c?begin$", s.callee or "") and re.search(vec, f.path(s.ops[-1])):
                return "it", p
    if isinstance(p, Ins) and p.op == "call" and re.search(r"::(operator\[\]|at)$", p.callee or "") and re.search(vec, f.path(p.ops[0])):
        ix = f.strip(p.ops[1])
        return ("ix", ix) if isinstance(ix, Ins) and ix.op == "phi" else ("any", None)
    return None


def covers_vec(f, e, ptr, vec, leave=None):
    """e is executed for every element of the container: reason why not, or None (leave: edge on which the loop may be left)"""
    k = vec_elem(f, ptr, vec)
    if k is None or k[0] == "any":
        return "not a loop over the container"
    kind, ph = k
    if kind == "it":
        steps = [x for x in ph.ops if isinstance(f.strip(x), Ins) and f.strip(x).op == "getelementptr" and f.strip(f.strip(x).ops[0]) is ph]
        ids = {ph.id} | {f.strip(x).id for x in steps}

        def done(k, pol):
            if k[0] != "eq" or not pol:
                return False
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if isinstance(a, Ins) and a.id in ids and isinstance(b, Ins) and b.op == "call" and re.search(r"::c?end$", b.callee or "") and re.search(vec, f.path(b.ops[-1])):
                    return True
            return False
    else:
        steps = [x for x in ph.ops if f.affine(x) == {("v", ph.id): 1, 1: 1}]
        if not any(v_const(0)(f.strip(x)) for x in ph.ops):
            return "index does not start at 0"

        def done(k, pol):
            if k[0] in ("ult", "slt") and not pol and isinstance(k[1], Ins) and (k[1] is ph or k[1] in steps):
                b = f.strip(k[2])
                return isinstance(b, Ins) and b.op == "call" and re.search(r"::size$", b.callee or "") is not None and re.search(vec, f.path(b.ops[0])) is not None
            return False
    if not steps:
        return "does not visit each element"
    if f.search(ph, lambda i: i is ph, lambda i: i is e, done) is not None:
        return "an element can be skipped"
    if f.search(e, is_ret, None, either(done, leave) if leave else done) is not None:
        return "the loop can be left early"
    return None


# ------------------------------------------------------------------ address and word helpers
def index_of(f, addr):
    """variable index operand of the innermost array access of an address (a getelementptr with a non-constant index)"""
    v = f.strip(addr)
    n = 0
    while isinstance(v, Ins) and n < 30:
        n += 1
        if v.op == "getelementptr":
            for o in reversed(v.ops[1:]):
                s = f.strip(o)
                if not (isinstance(s, Val) and s.k == "c"):
                    return s
            v = f.strip(v.ops[0])
        elif v.op in ("field", "bitcast"):
            v = f.strip(v.ops[0])
        else:
            return None
    return None


def halves(f, v):
    """(high, low) 32 bit halves of a packed 64 bit word"""
    v = f.strip(v)
    if isinstance(v, Ins) and v.op in ("or", "add"):
        for a, b in ((0, 1), (1, 0)):
            x, y = f.strip(v.ops[a]), f.strip(v.ops[b])
            if isinstance(x, Ins) and x.op == "shl" and v_const(32)(f.strip(x.ops[1])):
                return f.strip(x.ops[0]), y
    return None, v


def same(f, a, b):
    a, b = f.strip(a), f.strip(b)
    return a is b or (isinstance(a, Val) and isinstance(b, Val) and a == b) or f.affine_eq(a, b)


def adiff(f, a, b):
    """affine(a) - affine(b) as {atom: coefficient}"""
    M = 1 << 64
    d = dict(f.affine(a))
    for k, c in f.affine(b).items():
        d[k] = (d.get(k, 0) - c) % M
    return {k: c for k, c in d.items() if c}


def sgn(c):
    c %= 1 << 64
    if (1 << 31) <= c < (1 << 32):
        return c - (1 << 32)
    return c - (1 << 64) if c >= 1 << 63 else c


def atleast_acq(i):
    return i.ord in STRONG_ACQ


def atleast_rel(i):
    return i.ord in STRONG_REL


def bool_rows(f, events, lits, **kw):
    """table() rows with .lit['ret'] = constant boolean returned, or the literal that decides it"""
    rows = table(f, events, lits, **kw)
    for r in rows:
        v = f.ret_value(r.ret, r.st)
        if isinstance(v, Val) and v.k == "c":
            r.lit["ret"] = bool(v.v)
        elif isinstance(v, Val) and v.k == "null":
            r.lit["ret"] = False
        else:
            r.lit["ret"] = v
            k, pol = f.lit(v)
            for n, p in lits.items():
                t = p(k, pol)
                if t is not None:
                    r.lit["ret"] = ("is", n, t)
    return rows


def bool_exp(f, v, st, pol, depth=0):
    """alternatives (lists of literals) under which the boolean value v, phis resolved along the path, equals pol"""
    v = f.strip(v)
    n = 0
    while isinstance(v, Ins) and v.op == "phi" and ("phi", v.id) in st and n < 10:
        v, n = f.strip(st[("phi", v.id)]), n + 1
    if isinstance(v, Val):
        return [[]] if v.k == "c" and bool(v.v & 1) == pol else []
    if depth < 12 and isinstance(v, Ins):
        if v.op == "xor" and v_const(1, -1, True)(v.ops[1]):
            return bool_exp(f, v.ops[0], st, not pol, depth + 1)
        if v.op in ("and", "or"):
            A, B = (bool_exp(f, o, st, pol, depth + 1) for o in v.ops)
            return [x + y for x in A for y in B] if (v.op == "and") == pol else A + B
        if v.op == "icmp" and v.d.get("pred") in ("eq", "ne") and v_const()(v.ops[1]):
            w = res(f, v.ops[0], st)
            if isinstance(w, Val) and w.k == "c":
                return [[]] if ((w.v == v.ops[1].v) == (v.d["pred"] == "eq")) == pol else []
        if v.op == "icmp" and v.d.get("pred") in ("eq", "ne") and v_const(0)(v.ops[1]):
            w = f.strip(v.ops[0])
            if isinstance(w, Ins) and (w.op in ("and", "or") or (w.op == "phi" and ("phi", w.id) in st) or (w.op == "icmp")):
                return bool_exp(f, w, st, pol == (v.d["pred"] == "ne"), depth + 1)
    return [[f.lit(v, pol)]]


def split_bool(f, rows, lits):
    """rows returning a condition are split into rows returning a constant under further conditions"""
    out = []
    for r in rows:
        if isinstance(r.lit.get("ret"), bool) or not r.ret.ops:
            out.append(r)
            continue
        for pol in (True, False):
            for conj in bool_exp(f, r.ret.ops[0], r.st, pol):
                d, ok = dict(r.lit), True
                for k, p in conj:
                    for n, l in lits.items():
                        t = l(k, p)
                        if t is not None:
                            ok = ok and d.get(n, t) is t
                            d[n] = t
                if ok:
                    d["ret"] = pol
                    out.append(Row(r.ret, r.ev, d, r.trail, r.st))
    return out


def returns_iff(r, name):
    """row returns the truth of condition `name` (absent condition counts as false)"""
    v = r.lit["ret"]
    if v is True:
        return r.lit.get(name) is True
    if v is False:
        return r.lit.get(name) is not True
    return v == ("is", name, True)


def guards_of(f, e):
    """literals (key, polarity) that hold on every path to e"""
    out = []
    for b, sc, dnf, t in f.edges():
        if len(dnf) == 1:
            for k, pol in dnf[0]:
                if f.unguarded(e, lambda k2, p2, k=k, pol=pol: k2 == k and p2 == pol) is None:
                    out.append((k, pol))
    return out


def loop_limits(f, e, ix):
    """(bound, addend): e executes only for ix < bound + addend"""
    def off(x):
        d = adiff(f, x, ix)
        c = d.pop(1, 0)
        return None if d else sgn(c)
    out = []
    for k, pol in guards_of(f, e):
        if k[0] not in ("ult", "slt", "eq") or k[1] is None or k[2] is None:
            continue
        a, b = off(k[1]), off(k[2])
        if k[0] in ("ult", "slt"):
            if a is not None and pol:
                out.append((k[2], -a))
            elif b is not None and not pol:
                out.append((k[1], 1 - b))
        elif not pol:
            if a is not None:
                out.append((k[2], -a))
            elif b is not None:
                out.append((k[1], -b))
    return out


MEMCPY = re.compile(r"^(llvm\.mem(cpy|move)|memcpy$|memmove$)")


def writes_to(f, rx):
    """stores, atomic updates and block copies whose destination matches rx"""
    r = re.compile(rx)
    return [i for i in f.ins() if (i.op in ("store", "atomicrmw", "cmpxchg") and r.search(f.addr(i))) or
            (i.op == "call" and i.callee and MEMCPY.search(i.callee) and r.search(f.path(i.ops[0])))]


def reads_of(f, rx):
    r = re.compile(rx)
    return [i for i in f.ins() if (i.op in ("load", "atomicrmw", "cmpxchg") and r.search(f.addr(i))) or
            (i.op == "call" and i.callee and MEMCPY.search(i.callee) and r.search(f.path(i.ops[1])))]


def dst(i):
    return i.ops[1] if i.op == "store" else i.ops[0]


def src(i):
    return i.ops[0] if i.op in ("load", "atomicrmw", "cmpxchg") else i.ops[1]


def res(f, v, st, depth=0):
    """value of v on the simulated path: merged values replaced by what came in"""
    v = f.strip(v)
    while isinstance(v, Ins) and v.op == "phi" and ("phi", v.id) in st and depth < 20:
        depth += 1
        n = f.strip(st[("phi", v.id)])
        if n is v:
            break
        v = n
    return v


# ------------------------------------------------------------------ loops over whole arrays
def covers(f, e, ptr, base_rx, count, size):
    """e is executed for every element of the array `base_rx` (count elements of `size` bytes): -> reason why not, or None.
    Accepted forms: pointer running from base to base + count*size, or index running from 0 below count."""
    p = f.strip(ptr)
    path0 = f.path(p)
    # running pointer
    if isinstance(p, Ins) and p.op == "phi":
        ini = [x for x in p.ops if re.search(base_rx, f.path(x)) and not f.derives(x, v_is(p))]
        stp = [x for x in p.ops if isinstance(f.strip(x), Ins) and f.strip(x).op == "getelementptr" and f.strip(f.strip(x).ops[0]) is p]
        if not ini or not stp:
            return "not a loop over the array"
        if any(re.search(r"\+\d+$", f.path(x)) for x in ini):
            return "does not start at the first element"
        if any(f.strip(x).d.get("off") != size for x in stp):
            return "does not visit each element"
        ends = [k for b, sc, dnf, t in f.edges() for c in dnf for k, pol in c if k[0] in ("eq", "ult") and
                any(x is p or (isinstance(x, Ins) and x in stp) for x in (k[1], k[2]))]
        for k in ends:
            for a, o in ((k[1], k[2]), (k[2], k[1])):
                if (a is p or a in stp) and isinstance(o, Ins) and re.search(base_rx.rstrip("$") + r"\+%d$" % (count * size), f.path(o)):
                    return None
        return "does not run to the last element"
    ix = index_of(f, ptr)
    if isinstance(ix, Ins) and ix.op == "phi" and re.search(base_rx.rstrip("$") + r"\[\]$", path0):
        ini = [x for x in ix.ops if v_const(0)(f.strip(x))]
        stp = [x for x in ix.ops if f.affine(x) == {("v", ix.id): 1, 1: 1}]
        if not ini or not stp:
            return "index does not run from 0 in steps of 1"
        for b, add in loop_limits(f, e, ix):
            b = f.strip(b)
            if isinstance(b, Val) and b.k == "c" and b.v + add == count:
                return None
        return "index does not run to the last element"
    return "not a loop over the array"


# ------------------------------------------------------------------ results of functions returning expected / optional through arg0
EXP_TAG, EXP_VAL = r"^arg0(\.m_store\.data)?\.m_type_index$", r"^arg0(\.m_store\.data)?\.m_storage(\.data)?$"


def exp_rows(f, events, lits=None, cap=2, max_states=60000, phis=None):
    """table() rows with .lit['ret'] = 'ok' | 'err' | None and .lit['val'] = value last stored into the result"""
    lits = lits or {}
    tag = store(EXP_TAG)
    val = store(EXP_VAL)
    ph = f.ret_phis() if phis is None else phis

    def step(st, i):
        if i.op == "store":
            if tag(i):
                v = f.strip(i.ops[0])
                st["tag"] = v.v if isinstance(v, Val) and v.k == "c" else v
            elif val(i):
                st["val"] = f.strip(i.ops[0])
        elif i.op == "call" and MEMCPY.search(i.callee or "") and f.path(i.ops[0]) == "arg0":
            st["tag"], st["val"] = "copied", f.root_of(i.ops[1])
        for n, p in events.items():
            if p(i):
                ev = st.get("ev", ())
                if sum(1 for e in ev if e == n) < cap:
                    st["ev"] = ev + (n,)
        return None

    def edge(st, k, pol):
        for n, p in lits.items():
            t = p(k, pol)
            if t is not None:
                if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                    return False  # the same two-valued tag cannot be read differently
                st[("lit", n)] = t
        return None
    rows = []
    for r, st, tr in f.simulate({}, step, edge, cap=max_states, phis=ph):
        row = Row(r, st.get("ev", ()), {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st)
        t = st.get("tag")
        row.lit["ret"] = {0: "ok", 1: "err"}.get(t, t) if not isinstance(t, (Ins, Val)) else t
        row.lit["val"] = st.get("val")
        rows.append(row)
    return rows


def exp_ok(src, stable=False):
    """condition: the expected written by an instruction satisfying src(call) holds a value (its tag is 0 / not 1).
    stable: src is executed at most once, so that two tests of the tag agree"""
    def tagload(v):
        if not (isinstance(v, Ins) and v.op == "load"):
            return False
        f = v.fn
        r = f.root_of(v.ops[0])
        p = f.path(v.ops[0])
        if not (isinstance(r, Ins) and r.op == "alloca") or f.strip(v.ops[0]) is r and not v.ty == "i64":
            return False
        if not re.search(r"(m_type_index|\+\d+)$", p):
            return False
        if any(re.search(r"destruct|(^|::)~", c or "") for c in v.chain()):
            return False  # the cleanup code looks at the tag again
        return any(w.op == "call" and src(w) and w.ops and f.root_of(w.ops[0]) is r for w in f.writers(r))

    def p(k, pol):
        if k[0] == "eq" and tagload(k[1]) and isinstance(k[2], Val) and k[2].k == "c":
            if k[2].v == 0:
                return pol
            if k[2].v == 1:
                return (not pol)
        return None
    p.stable = stable
    return p


CHUNKCOPY = re.compile(r"(SharedChunk::(SharedChunk|operator=)|ShmSafeUnmanagedChunk::ShmSafeUnmanagedChunk|ShmSafeUnmanagedChunk::operator=)$")
CHUNKFROM = re.compile(r"(ShmSafeUnmanagedChunk::(cloneToSharedChunk|releaseToSharedChunk))$")


def chunk_chain(f, v):
    """locals (ids) and access paths the chunk handle v was copied from, itself included"""
    out, todo = set(), [v]
    while todo:
        r = todo.pop()
        p = f.path(r)
        b = f.root_of(r)
        key = b.id if isinstance(b, Ins) and b.op == "alloca" else p
        if key in out:
            continue
        out.add(key)
        if isinstance(b, Ins) and b.op == "alloca":
            for w in f.writers(b):
                if w.op == "call" and w.callee and (CHUNKCOPY.search(w.callee) or MEMCPY.search(w.callee) or CHUNKFROM.search(w.callee)) and len(w.ops) > 1 \
                        and f.root_of(w.ops[0]) is b and not isnull(f.strip(w.ops[1])):
                    todo.append(w.ops[1])
    return out


def same_chunk(f, a, b):
    return bool(chunk_chain(f, a) & chunk_chain(f, b))


REPORT = call(r"iox::er::(forwardNonFatalError|forwardFatalError)$|^iox::er::(report|forward)")


def opt_has(src):
    """condition: the optional written by an instruction satisfying src(call) holds a value"""
    def flag(v):
        if not (isinstance(v, Ins) and v.op == "load"):
            return False
        f = v.fn
        r = f.root_of(v.ops[0])
        if not (isinstance(r, Ins) and r.op == "alloca") or re.search(r"\+\d+$", f.path(v.ops[0])) or v.ty not in ("i8", "i1"):
            return False
        if any(re.search(r"destruct|(^|::)~|(^|::)operator=$|(^|::)reset$", c or "") for c in v.chain()):
            return False
        return any(w.op == "call" and src(w) and w.ops and f.root_of(w.ops[0]) is r for w in f.writers(r))

    def p(k, pol):
        if k[0] == "b" and flag(f_strip(k[1])):
            return pol
        if k[0] == "eq" and isinstance(k[2], Val) and k[2].k == "c" and k[2].v in (0, 1) and flag(f_strip(k[1])):
            return pol if k[2].v == 1 else (not pol)
        return None
    return p


f_strip = Fn.strip


def enum2(field, yes=0):
    """condition on a two-valued enum field: holds the value `yes` (0 or 1)"""
    r = re.compile(field)

    def p(k, pol):
        a, b = k[1], k[2]
        if k[0] == "eq" and isinstance(a, Ins) and a.op == "load" and isinstance(b, Val) and b.k == "c" and b.v in (0, 1) and r.search(a.fn.addr(a)):
            return pol if b.v == yes else (not pol)
        if k[0] == "b" and isinstance(f_strip(a), Ins) and f_strip(a).op == "load" and r.search(f_strip(a).fn.addr(f_strip(a))):
            return pol if yes == 1 else (not pol)
        return None
    return p


def opt_rows(f, events, lits=None, ret=r"^arg0\.m_hasValue$", **kw):
    """table() rows of a function returning optional through arg0: .lit['ret'] = has a value"""
    last = {}
    sts = [i for i in f.stores(ret)]
    ev = dict(events)
    ev["\x00some"] = lambda i: i in sts and v_const(1)(f.strip(i.ops[0]))
    ev["\x00none"] = lambda i: i in sts and v_const(0)(f.strip(i.ops[0]))
    rows = table(f, ev, lits, cap=kw.pop("cap", 3), **kw)
    for r in rows:
        h = [e for e in r.ev if e in ("\x00some", "\x00none")]
        r.lit["ret"] = (h[-1] == "\x00some") if h else None
        r.ev = tuple(e for e in r.ev if e not in ("\x00some", "\x00none"))
    return rows


class Counter:
    """loop counter held in an SSA value or in a local variable"""

    def __init__(self, f, v):
        self.f, self.ok = f, False
        v = f.strip(v)
        self.v = v
        if isinstance(v, Ins) and v.op == "phi":
            self.ids = {v.id} | {f.strip(x).id for x in v.ops if isinstance(f.strip(x), Ins)}
            self.inits = [f.strip(x) for x in v.ops if f.affine(x) != {("v", v.id): 1, 1: 1}]
            self.steps = [f.strip(x) for x in v.ops if f.affine(x) == {("v", v.id): 1, 1: 1}]
            self.ok = bool(self.steps)
        elif isinstance(v, Ins) and v.op == "load" and isinstance(f.root_of(v.ops[0]), Ins) and f.root_of(v.ops[0]).op == "alloca":
            a = f.root_of(v.ops[0])
            st = [i for i in f.ins() if i.op == "store" and f.root_of(i.ops[1]) is a]
            lo = [i for i in f.ins() if i.op == "load" and f.root_of(i.ops[0]) is a]
            self.ids = {i.id for i in lo}
            self.steps = [s for s in st if any(adiff(f, s.ops[0], l) == {1: 1} for l in lo)]
            self.inits = [f.strip(s.ops[0]) for s in st if s not in self.steps]
            self.ok = bool(self.steps)
            for l in lo:
                self.ids |= {f.strip(s.ops[0]).id for s in self.steps}

    def is_val(self, x):
        x = self.f.strip(x) if isinstance(x, Ins) else x
        return isinstance(x, Ins) and x.id in self.ids

    def done(self, n):
        """edge: the counter reached n"""
        def p(k, pol):
            if k[0] in ("ult", "slt") and not pol and self.is_val(k[1]) and v_const(n)(self.f.strip(k[2])):
                return True
            if k[0] in ("ult", "slt") and pol and v_const(n - 1)(self.f.strip(k[1])) and self.is_val(k[2]):
                return True
            return k[0] == "eq" and pol and ((self.is_val(k[1]) and v_const(n)(self.f.strip(k[2]))) or (self.is_val(k[2]) and v_const(n)(self.f.strip(k[1]))))
        return p


def twins(f, a, b):
    """two counters of one loop with the same start and step"""
    if not all(isinstance(x, Ins) and x.op == "phi" for x in (a, b)) or a.blk != b.blk:
        return False
    for k, x in zip(a.d["from"], a.ops):
        y = b.ops[b.d["from"].index(k)]
        p, q = f.affine(x), f.affine(y)
        p = {("v", 0) if t == ("v", a.id) else t: n for t, n in p.items()}
        q = {("v", 0) if t == ("v", b.id) else t: n for t, n in q.items()}
        if p != q:
            return False
    return True


def scans(f, loads, n):
    """the loads visit all n elements of an array in one loop: (reason why not or None, edge on which the loop is complete)"""
    for l in loads:
        ix = index_of(f, l.ops[0])
        if ix is None:
            continue
        c = Counter(f, ix)
        if not c.ok:
            continue
        if not c.inits or not all(v_const(0)(x) for x in c.inits):
            return "does not start at the first element", None
        done = c.done(n)
        if not any(done(k, pol) for b, sc, dnf, t in f.edges() for cj in dnf for k, pol in cj):
            return "does not run to the last element", None
        st = set(s.id for s in c.steps)
        ids = {x.id for x in loads}
        if f.search(c.steps, lambda i: i.id in st, lambda i: i.id in ids, done) is not None:
            return "an element can be skipped", done
        if f.search(None, lambda i: i.id in st, lambda i: i.id in ids) is not None:
            return "an element can be skipped", done
        return None, done
    for l in loads:
        p = f.strip(l.ops[0])
        while isinstance(p, Ins) and p.op in ("field", "bitcast", "getelementptr") and p.op != "phi":
            p = f.strip(p.ops[0])
        if isinstance(p, Ins) and p.op == "phi":
            step = [x for x in p.ops if isinstance(f.strip(x), Ins) and f.strip(x).op == "getelementptr" and f.strip(f.strip(x).ops[0]) is p]
            if not step:
                continue
            size = f.strip(step[0]).d.get("off")
            ini = [x for x in p.ops if x not in step]
            ids = {p.id} | {f.strip(x).id for x in step}
            base = [f.path(x) for x in ini]

            def done(k, pol):
                if k[0] != "eq" or not pol:
                    return False
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if isinstance(a, Ins) and a.id in ids and isinstance(b, Ins) and f.path(b) == base[0] + "+%d" % (n * size):
                        return True
                return False
            if len(set(base)) != 1 or re.search(r"\+\d+$", base[0]) or not any(done(k, pol) for b, sc, dnf, t in f.edges() for cj in dnf for k, pol in cj):
                return "does not run over all elements", None
            lid = {x.id for x in loads}
            if f.search(p, lambda i: i is p, lambda i: i.id in lid, done) is not None:
                return "an element can be skipped", done
            return None, done
    return "not a loop over the array", None


# ------------------------------------------------------------------ what fields hold at the return
def finals(f, fields, events=None, lits=None, cap=2, max_states=60000, deep=False):
    """table() rows with .lit[name] = value last written to the field (Val | Ins; for opaque copies the copying call), None if unwritten.
    fields: name -> regex of the access path of the destination"""
    events, lits = events or {}, lits or {}
    rx = {n: re.compile(p) for n, p in fields.items()}
    wr = {}
    for i in f.ins():
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            p = f.addr(i)
            v = f.strip(i.ops[0]) if i.op == "store" else i
        elif i.op == "call" and i.ops and i.callee and (re.search(r"::(operator=|emplace|reset|clear)$", i.callee) or MEMCPY.search(i.callee) or (lambda t: len(t) > 1 and t[-1] == t[-2])(re.sub(r"<.*?>", "", i.callee).split("::"))):
            p, v = f.path(i.ops[0]), i
        else:
            continue
        for n, r in rx.items():
            if r.search(p):
                wr.setdefault(i.id, []).append((n, v))

    def step(st, i):
        for n, v in wr.get(i.id, ()):
            st[("fin", n)] = v
        for n, p in events.items():
            if p(i):
                ev = st.get("ev", ())
                if sum(1 for e in ev if e == n) < cap:
                    st["ev"] = ev + (n,)
        return None

    def edge(st, k, pol):
        for n, p in lits.items():
            t = p(k, pol)
            if t is not None:
                if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                    return False  # the same two-valued tag cannot be read differently
                st[("lit", n)] = t
        return None
    rows = []
    phis = set(f.ret_phis())
    if deep:  # the merged values the written ones are computed from, too
        todo, seen = [v for x in wr.values() for _, v in x] + [o for i in f.ins() if is_ret(i) for o in i.ops], set()
        while todo:
            v = f.strip(todo.pop())
            if isinstance(v, Ins) and v.id not in seen and v.op not in ("load", "call"):
                seen.add(v.id)
                if v.op == "phi":
                    phis.add(v.id)
                todo += v.ops
    for r, st, tr in f.simulate({}, step, edge, cap=max_states, phis=phis):
        row = Row(r, st.get("ev", ()), {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st)
        for n in fields:
            row.lit[n] = st.get(("fin", n))
        rows.append(row)
    return rows


def from_path(f, v, rx):
    """the value (or the source of the copying call) is the object at an access path matching rx"""
    if isinstance(v, Ins) and v.op == "call" and len(v.ops) > 1 and not (v.callee or "").endswith("operator()"):
        return re.search(rx, f.path(v.ops[1])) is not None
    return isinstance(v, Ins) and re.search(rx, f.path(v).lstrip("*")) is not None


# ------------------------------------------------------------------ per-input tables: constant propagation of chosen inputs along every path
class Sim:
    """Decision table of f for one assignment of constants to input fields.
    vars: name -> regex of the access path (object fields read by f); memory is tracked by (object, offset) along each path, so
    values copied through locals, copy constructors and memcpy are seen at their destination."""

    def __init__(self, f, vars, events=None, lits=None, cap=2, max_states=60000, args=None, hook=None, calls=None):
        self.hook = hook
        self.callv = {i.id: n for n, p in (calls or {}).items() for i in f.ins() if i.op == "call" and p(i)}  # calls whose result is an input
        self.f, self.events, self.lits, self.cap, self.max_states = f, events or {}, lits or {}, cap, max_states
        self.args = args or {}
        self.vars = {n: re.compile(r) for n, r in vars.items()}
        self.where = {}
        for i in f.ins():
            ps = [f.ptr(i)] + ([i.ops[1]] if i.op == "call" and MEMCPY.search(i.callee or "") else [])
            for p in ps:
                for n, r in self.vars.items() if p is not None else ():
                    if r.search(f.path(p)):
                        l = self.loc(p, {})
                        if l is not None:
                            self.where.setdefault(l, n)
        self.tags = {n: False for n in vars}
        for l, n in self.where.items():
            self.tags[n] = True

    # --- addresses
    def loc(self, v, st, depth=0):
        f, off = self.f, 0
        while depth < 60:
            depth += 1
            v = f.strip(v)
            if isinstance(v, Val):
                return ("arg%d" % v.v, off) if v.k == "arg" else ("@" + str(v.v), off) if v.k == "g" else None
            if v.op in ("field", "getelementptr"):
                if "off" not in v.d:
                    return (f.path(v), off)
                off += v.d["off"]
                v = v.ops[0]
            elif v.op == "alloca":
                return "$%d" % v.id, off
            elif v.op == "load":
                x = st.get(("lv", v.id))
                if x is not None and x is not v and isinstance(x, (Ins, Val)):
                    v = x
                    continue
                return f.path(v), off
            elif v.op == "phi":
                x = st.get(("phi", v.id))
                if x is None:
                    return f.path(v), off
                v = x
            else:
                return f.path(v), off
        return None

    def read(self, st, l, depth=0):
        """value at a location: Val | Ins | ('init', object, offset) for what was there at entry"""
        if l is None or depth > 20:
            return None
        v = st.get(("m",) + l)
        if v is not None:
            return v
        best = None
        for k, w in st.items():
            if isinstance(k, tuple) and k[0] == "cp" and k[1] == l[0] and k[2] <= l[1] < k[2] + w[2] and (best is None or w[3] > best[1][3]):
                best = (k, w)
        if best:
            return self.read(st, (best[1][0], best[1][1] + l[1] - best[0][2]), depth + 1)
        return ("init",) + l

    def val(self, v, st, depth=0):
        """constant (int / bool as int) a value has on this path, else the value itself"""
        f = self.f
        v = f.strip(v) if isinstance(v, (Ins, Val)) else v
        if depth > 30 or not isinstance(v, (Ins, Val)):
            return v
        if isinstance(v, Val):
            if v.k == "arg" and v.v in self.args:
                return self.asg[self.args[v.v]]
            return v.v if v.k == "c" else 0 if v.k == "null" else v
        if v.op == "call":
            return self.asg.get(self.callv[v.id], v) if v.id in self.callv else v
        if v.op == "load":
            x = st.get(("lv", v.id))
            return self.val(x, st, depth + 1) if x is not None and x is not v else v
        if v.op == "phi":
            x = st.get(("phi", v.id))
            return self.val(x, st, depth + 1) if x is not None else v
        if v.op in ("zext", "sext", "trunc", "bitcast", "freeze"):
            return self.val(v.ops[0], st, depth + 1)
        if v.op in ("icmp", "and", "or", "xor", "add", "sub", "select"):
            xs = [self.val(o, st, depth + 1) for o in v.ops]
            if v.op == "select":
                return self.val(v.ops[1] if xs[0] else v.ops[2], st, depth + 1) if isinstance(xs[0], int) else v
            if all(isinstance(x, int) for x in xs) and len(xs) == 2:
                a, b = xs
                if v.op == "icmp":
                    m = (1 << 64) - 1
                    t = {"eq": a == b, "ne": a != b, "ult": (a & m) < (b & m), "ule": (a & m) <= (b & m), "ugt": (a & m) > (b & m), "uge": (a & m) >= (b & m),
                         "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}.get(v.pred)
                    return int(t) if t is not None else v
                return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b}[v.op]
            if v.op == "and" and 0 in [x for x in xs if isinstance(x, int)]:
                return 0
        return v

    def _lit(self, k, pol, st):
        """truth of an edge literal under the assignment, or None"""
        if k[0] in ("eq", "ult", "slt") and len(k) > 2:
            a, b = self.val(k[1], st), self.val(k[2], st)
            if isinstance(a, int) and isinstance(b, int):
                t = (a - b) % (1 << 64) == 0 if k[0] == "eq" else a < b
                return t == pol
            return None
        if len(k) > 1:
            a = self.val(k[1], st)
            if isinstance(a, int):
                return bool(a) == pol
        return None

    def run(self, asg):
        f = self.f
        self.asg = asg

        def step(st, i):
            if i.op == "load":
                l = self.loc(i.ops[0], st)
                v = self.read(st, l)
                if isinstance(v, tuple) and v[0] == "init":
                    n = self.where.get((v[1], v[2]))
                    v = Val("c", asg[n]) if n in asg else None
                if isinstance(v, (Ins, Val)):
                    st[("lv", i.id)] = v
            elif i.op == "store":
                l = self.loc(i.ops[1], st)
                if l is not None:
                    st[("m",) + l] = self._keep(i.ops[0], st)
            elif i.op == "call" and i.ops and i.callee:
                if MEMCPY.search(i.callee):
                    n = f.strip(i.ops[2])
                    self._copy(st, self.loc(i.ops[0], st), self.loc(i.ops[1], st), n.v if isinstance(n, Val) and n.k == "c" else 1 << 20)
                elif len(i.ops) == 2 and (i.callee.endswith("::operator=") or (lambda t: len(t) > 1 and t[-1] == t[-2])(re.sub(r"<.*?>", "", i.callee).split("::"))):
                    d, s = self.loc(i.ops[0], st), self.loc(i.ops[1], st)
                    if d and s:
                        self._copy(st, d, s, 1)
            if self.hook:
                self.hook(self, st, i)
            for n, p in self.events.items():
                if p(i):
                    e = st.get("ev", ())
                    if sum(1 for x in e if x == n) < self.cap:
                        st["ev"] = e + (n,)
            return None

        def edge(st, k, pol):
            for n, p in self.lits.items():
                t = p(k, pol)
                if t is not None:
                    if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                        return False
                    st[("lit", n)] = t
            return None
        rows = []
        for r, st, tr in f.simulate({}, step, edge, cap=self.max_states, feasible=lambda st, k, pol: self._lit(k, pol, st)):
            row = Row(r, st.get("ev", ()), {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st)
            rows.append(row)
        return rows

    def _keep(self, v, st):
        """value to remember: resolved as far as possible at the time of the store"""
        x = self.val(v, st)
        if isinstance(x, int):
            return Val("c", x)
        x = self.f.strip(v)
        if isinstance(x, Ins) and x.op == "phi":
            y = st.get(("phi", x.id))
            return self._keep(y, st) if y is not None and y is not v else x
        return x

    def _copy(self, st, d, s, n):
        if d is None or s is None:
            return
        src = {k: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "m" and k[1] == s[0] and s[1] <= k[2] < s[1] + n}
        for k in [k for k in st if isinstance(k, tuple) and k[0] in ("m", "cp") and k[1] == d[0] and d[1] <= k[2] < d[1] + n]:
            del st[k]
        for k, v in src.items():
            st[("m", d[0], d[1] + k[2] - s[1])] = v
        cps = [(k, v) for k, v in st.items() if isinstance(k, tuple) and k[0] == "cp" and k[1] == s[0] and s[1] <= k[2] < s[1] + n]
        rank = st["rank"] = st.get("rank", 0) + 1
        st[("cp", d[0], d[1])] = (s[0], s[1], n, rank)
        for k, v in cps:
            st[("cp", d[0], d[1] + k[2] - s[1])] = (v[0], v[1], v[2], rank + 1)
        for l, nm in self.where.items():
            if l[0] == s[0] and s[1] <= l[1] < s[1] + n and ("m",) + l not in st and nm in self.asg and not any(k[2] <= l[1] < k[2] + v[2] for k, v in cps):
                st[("m", d[0], d[1] + l[1] - s[1])] = Val("c", self.asg[nm])

    def at(self, row, root, off):
        """value at (object, offset) when the row returns: int, ('init', object, offset), Ins, ..."""
        v = self.read(row.st, (root, off))
        return self.val(v, row.st) if isinstance(v, (Ins, Val)) else v

    def final(self, row, name):
        """value of an input field at the return"""
        for l, n in self.where.items():
            if n == name:
                v = self.read(row.st, l)
                if isinstance(v, tuple):
                    v = self.asg.get(name)
                return self.val(v, row.st) if isinstance(v, (Ins, Val)) else v
        return self.asg.get(name)


def layout(fns):
    """(class, field) -> offset, from the field accesses of the functions"""
    out = {}
    for f in fns:
        for i in f.ins():
            if i.op == "field":
                out[(re.sub(r"<.*", "", i.cls), i.fld)] = i.d["off"]
    return out


def product(dom):
    rows = [{}]
    for n, vs in dom.items():
        rows = [dict(r, **{n: v}) for r in rows for v in vs]
    return rows


# ---------------------------------------------------------------------------------------------- contracts
TAGS = frozenset((0, 1))


def panics(f, ignore=None):
    """panic calls (contract violations) reachable without contradicting the tags of optionals/expecteds tested before:
    a tag keeps its value until its object is written.  Returns {unreachable instruction: trail}."""
    wr = {}
    for i in f.ins():
        if i.op == "alloca":
            for w in f.writers(i):
                wr.setdefault(w.id, []).append(i.id)
    found = {}

    def key(k):
        ls = [f.strip(o) for o in k[1:] if o is not None]
        ls = [v for v in ls if isinstance(v, Ins) and v.op == "load"]
        if len(ls) != 1:
            return None
        r = f.root_of(ls[0].ops[0])
        if isinstance(r, Ins) and r.op == "alloca":
            return (r.id, f.path(ls[0].ops[0]), ls[0])
        p = f.path(ls[0].ops[0])
        return ("m", p, ls[0]) if re.search(r"m_hasValue$|m_type_index$", p) else None

    def step(st, i):
        for r in wr.get(i.id, ()):
            for q in [q for q in st if isinstance(q, tuple) and q[0] == "F" and q[1] == r]:
                del st[q]
        if i.op == "store" or (i.op == "call" and not i.callee):
            p = f.addr(i) if i.op == "store" else None
            for q in [q for q in st if isinstance(q, tuple) and q[0] == "F" and q[1] == "m"]:
                if p is None or p == q[2]:
                    del st[q]
        if i.op == "unreachable":
            if ignore is None or not ignore(i):
                found.setdefault(i, dict(st))
            return False
        return None

    def edge(st, k, pol):
        q = key(k)
        if q is None:
            return None
        l = q[2]
        q = ("F", q[0], q[1])
        c = [f.strip(o) for o in k[1:] if o is not None and isinstance(f.strip(o), Val)]
        if k[0] == "eq" and len(c) == 1 and c[0].k == "c" and (l.ty == "i64" and ("expected" in f.path(l.ops[0]) or "m_type_index" in q[2]) or "variant" in str((l.loc or ("",))[0])):
            q += ("tag",)
            d = st.get(q, TAGS)
            d = d & {c[0].v} if pol else d - {c[0].v}
            if not d:
                return False
            st[q] = d
            return None
        q += (k[0], str(c[0].v) if c else "")
        if st.get(q, pol) != pol:
            return False
        st[q] = pol
        return None
    f.simulate({}, step, edge, phis=False)
    return found


def unwraps(f):
    """unwrapping an optional or expected which need not have what is taken out: [(call, block)]"""
    out = []
    for i in panics(f):
        b = [l for l in f.blocks.values() if i in l][0]
        for c in b:
            if c.op == "call" and c.loc and re.search(r"(expected|optional)\.inl$", c.loc[0]):
                out.append(c)
                break
    return out


def vec_empty(path):
    """literal: the container at path is empty (empty(), or its size compared with 0)"""
    E = truth_of(call(r"^iox::(vector|list|forward_list|string)::empty$", (0, path)))
    SZ = call(r"^iox::(vector|list|forward_list|string)::size$", (0, path))

    def p(k, pol):
        t = E(k, pol)
        if t is not None:
            return t
        if k[0] == "eq" and len(k) > 2:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if isinstance(a, Ins) and a.op == "call" and SZ(a) and isinstance(b, Val) and b.k == "c" and b.v == 0:
                    return pol
        if k[0] == "ult" and len(k) > 2 and isinstance(k[2], Ins) and k[2].op == "call" and SZ(k[2]) and isinstance(k[1], Val) and k[1].v == 0:
            return not pol
        if k[0] == "ult" and len(k) > 2 and isinstance(k[1], Ins) and k[1].op == "call" and SZ(k[1]) and isinstance(k[2], Val) and k[2].v == 1:
            return pol
        if len(k) > 1 and k[0] not in ("eq", "ult", "slt") and isinstance(k[1], Ins) and k[1].op == "call" and SZ(k[1]):
            return not pol
        return None
    return p


# ------------------------------------------------------------------ system calls
def held_by(f, v):
    """the objects whose copy the local v holds"""
    r = f.root_of(v)
    if not (isinstance(r, Ins) and r.op == "alloca"):
        return [v]
    out = []
    for w in f.writers(r):
        if w.op == "store":
            s = f.strip(w.ops[0])
            out.append(s.ops[0] if isinstance(s, Ins) and s.op == "load" else s)
        elif w.op == "call" and MEMCPY.search(w.callee or "") and f.root_of(w.ops[0]) is r:
            out.append(w.ops[1])
    return out


def scalar(f, v):
    """value of an argument passed by reference to a local, or the value itself"""
    v = f.strip(v)
    if isinstance(v, Ins) and v.op == "alloca":
        st = [w for w in f.writers(v) if w.op == "store"]
        return f.strip(st[0].ops[0]) if len(st) == 1 else None
    return v


def posix_val(f, v, rx, depth=0):
    """v is the result of the system call rx (through the retry loop; result and errno may share a word)"""
    v = f.strip(v)
    if not isinstance(v, Ins) or depth > 10:
        return False
    if v.op == "call":
        return re.search(rx, v.callee or "") is not None
    if v.op == "phi":
        r = [x for x in v.ops if isinstance(f.strip(x), Ins) and f.strip(x) is not v]
        return bool(r) and all(posix_val(f, x, rx, depth + 1) for x in r)
    if v.op == "or":
        return any(posix_val(f, x, rx, depth + 1) for x in v.ops)
    if v.op == "and":
        m = f.strip(v.ops[1])
        return isinstance(m, Val) and m.k == "c" and m.v & 1 == 1 and posix_val(f, v.ops[0], rx, depth + 1)
    return False


def posix_ok(f, rx, good=None, bad=None):
    """literal: the system call succeeded"""
    def p(k, pol):
        if k[0] != "eq":
            return None
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            if posix_val(f, a, rx):
                c = f.strip(b)
                n = 0 if isinstance(c, Val) and c.k == "null" else c.v if isinstance(c, Val) and c.k == "c" else None
                if n is None:
                    return None
                if good is not None and n == good:
                    return pol
                if bad is not None and n == bad:
                    return not pol
        return None
    return p


def posix_err(f, v, rx, depth=0):
    """v is the errno left by the system call rx"""
    v = f.strip(v)
    if not isinstance(v, Ins) or depth > 6:
        return False
    if v.op == "lshr":
        return posix_val(f, v.ops[0], rx)
    if v.op == "phi":
        r = [x for x in v.ops if isinstance(f.strip(x), Ins) and f.strip(x) is not v]
        r = [x for x in r if not (f.strip(x).op == "phi" and all(not isinstance(f.strip(y), Ins) for y in f.strip(x).ops))]
        return bool(r) and all(posix_err(f, x, rx, depth + 1) for x in r)
    if v.op == "load":
        c = f.strip(v.ops[0])
        return isinstance(c, Ins) and c.op == "call" and c.callee == "__errno_location" and any(i.op == "call" and re.search(rx, i.callee or "") for i in next(l for l in f.blocks.values() if v in l))
    return False


def posix_errno(f, rx, *nums):
    """literal: the errno left by the system call is one of nums"""
    def p(k, pol):
        if k[0] != "eq":
            return None
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            c = f.strip(b)
            if isinstance(c, Val) and c.k == "c" and c.v in nums and posix_err(f, a, rx):
                return pol
        return None
    p.stable = len(nums) == 1
    return p


def lin(f, v):
    """(atom, constant) with v = atom + constant; the atom is an instruction or an affine token; (None, None) otherwise"""
    d = dict(f.affine(v))
    c = sgn(d.pop(1, 0))
    if len(d) != 1:
        return None, None
    a, n = d.popitem()
    if n != 1:
        return None, None
    if a[0] == "v":
        a = f.byid.get(a[1], a)
    return a, c


class Sys(Sim):
    """Decision table of f with the outcomes of the system calls (and other listed calls) as inputs.
    calls: name -> predicate on call instructions; args: name -> operands whose values are recorded in the event.
    run(asg): asg[name] is the list of outcomes (result, errno) the calls of that name have, one after the other (the last repeats);
    other entries of asg are fields (vars). Events are (name, value of operand, ...)."""
    M32 = 0xffffffff
    M64 = 0xffffffffffffffff

    def __init__(self, f, calls, vars=None, args=None, events=None, lits=None, max_states=60000):
        super().__init__(f, vars or {}, {}, lits, hook=self._sys, max_states=max_states)
        self.sysc = {i.id: n for n, p in calls.items() for i in f.ins() if i.op == "call" and p(i)}
        self.rec = args or {}
        self.evs = events or {}
        self.count = {}
        for n in self.sysc.values():
            self.count[n] = self.count.get(n, 0) + 1

    def loc(self, v, st, depth=0):
        x = self.f.strip(v)
        if isinstance(x, Ins) and x.op == "call" and x.callee == "__errno_location":
            return ("errno", 0)
        return super().loc(v, st, depth)

    def _sys(self, sim, st, i):
        if i.op == "call" and i.id in self.sysc:
            n = self.sysc[i.id]
            k = st.get(("n", n), 0)
            st[("n", n)] = min(k + 1, 6)
            out = self.asg.get(n)
            if out:
                r, e = out[min(k, len(out) - 1)]
                if callable(r):
                    r = r(self, st, i)
                if r is not None:
                    st[("cr", i.id)] = r
                st[("m", "errno", 0)] = Val("c", e)
            st["ev"] = st.get("ev", ()) + ((n,) + tuple(self._arg(i, a, st) for a in self.rec.get(n, ())),)
            return
        for n, p in self.evs.items():
            if p(i):
                st["ev"] = st.get("ev", ()) + ((n,) + tuple(self._arg(i, a, st) for a in self.rec.get(n, ())),)

    def _arg(self, i, a, st):
        if a >= len(i.ops):
            return None
        v = self.val(i.ops[a], st)
        if isinstance(v, int):
            return v
        v = self._keep(i.ops[a], st)
        return self.f.path(v) if isinstance(v, Ins) and v.op in ("load", "field", "getelementptr", "alloca") else self.f.term(v) if isinstance(v, Ins) else repr(v)

    def val(self, v, st, depth=0):
        f = self.f
        x = f.strip(v) if isinstance(v, (Ins, Val)) else v
        if isinstance(x, Val) and x.k == "ce" and str(x.v).startswith("inttoptr") and x.x:
            return self.val(x.x[0], st, depth + 1)
        if isinstance(x, Ins) and depth <= 30:
            if x.op == "call":
                r = st.get(("cr", x.id))
                return x if r is None else r
            if x.op in ("shl", "lshr", "ashr"):
                a, b = self.val(x.ops[0], st, depth + 1), self.val(x.ops[1], st, depth + 1)
                if isinstance(a, int) and isinstance(b, int):
                    return (a << b) & ((1 << 64) - 1) if x.op == "shl" else a >> b
                return x
            if x.op in ("or", "and"):
                a, b = self.val(x.ops[0], st, depth + 1), self.val(x.ops[1], st, depth + 1)
                if isinstance(a, int) and isinstance(b, int):
                    return a | b if x.op == "or" else a & b
                return 0 if x.op == "and" and (a == 0 or b == 0) else x
        return super().val(v, st, depth)

    def _lit(self, k, pol, st):
        if k[0] in ("eq", "slt") and len(k) > 2:
            # value and errno of a call may share a word; the comparison is of the low half then (casts are not part of the key)
            a, b = self.val(k[1], st), self.val(k[2], st)
            if isinstance(a, int) and isinstance(b, int):
                if b <= self.M32 < a < self.M64:
                    a &= self.M32
                elif a <= self.M32 < b < self.M64:
                    b &= self.M32
                sg = lambda x: x - (1 << 32) if (1 << 31) <= x <= self.M32 else x - (1 << 64) if x >= (1 << 63) else x
                return (a == b if k[0] == "eq" else sg(a) < sg(b)) == pol
        t = super()._lit(k, pol, st)
        if t is None and k[0] == "eq" and len(k) > 2:
            r = [self.f.root_of(x) for x in k[1:3] if isinstance(x, (Ins, Val))]
            loc = lambda x: isinstance(x, Ins) and x.op == "alloca"
            if len(r) == 2 and all(loc(x) or (isinstance(x, Val) and x.k == "arg") for x in r) and any(map(loc, r)) and r[0] is not r[1] and not any(isinstance(self.f.strip(x), Ins) and self.f.strip(x).op in ("load", "phi") for x in k[1:3]):
                return not pol
        return t

    def n(self, row, name):
        return sum(1 for e in row.ev if e[0] == name)

    def argsof(self, row, name):
        return [e[1:] for e in row.ev if e[0] == name]


def _width(v):
    """width in bits of an integer value, None for others"""
    if isinstance(v, Ins):
        m = re.match(r"^i(\d+)$", v.ty or "")
        return int(m.group(1)) if m else None
    return v.x if isinstance(v, Val) and v.k == "c" and isinstance(v.x, int) else None


def narrowings(f, v, stop=()):
    """casts that drop bits of a size or address, and products formed in fewer than 64 bits, in the arithmetic that yields v.
    A cast of a value that was widened from the same width before is harmless, as is one of a masked or constant value."""
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if not isinstance(x, Ins) or x.id in seen or x in stop:
            continue
        seen.add(x.id)
        if x.op == "trunc":
            w = _width(x) or 64
            s = x.ops[0]
            if isinstance(s, Ins) and s.op in ("zext", "sext"):
                o = _width(s.ops[0]) or 64
                if o <= w:
                    st.append(s.ops[0])
                    continue
            if isinstance(s, Ins) and s.op == "and" and any(isinstance(o, Val) and o.k == "c" and 0 <= o.v < (1 << w) for o in s.ops):
                continue
            if w > 1:
                out.append(x)
        elif x.op in ("mul", "shl") and (_width(x) or 64) < 64:
            out.append(x)
        if x.op in CASTS or x.op in ("add", "sub", "mul", "shl", "lshr", "udiv", "urem", "and", "or", "xor", "phi", "select", "getelementptr"):
            st.extend(x.ops)
        elif x.op == "alloca" or (x.op == "load" and isinstance(f.root_of(x.ops[0]), Ins) and f.root_of(x.ops[0]).op == "alloca"):
            a = x if x.op == "alloca" else f.root_of(x.ops[0])
            st.extend(w.ops[0] for w in f.writers(a) if w.op == "store")
        elif x.op == "call" and x.callee and re.search(r"(^|::)(align|maxVal|minVal|max|min)$", x.callee):
            st.extend(x.ops)
    return out


def wide(cx, f, v, what, key, at=None, stop=()):
    """obligation: v is computed without dropping bits"""
    n = narrowings(f, v, stop)
    cx.ob(not n, f, what, key, n[0] if n else at)


def wide_sinks(cx, f, calls, fields, what, key):
    """obligations: no bits are dropped from what is passed to the given functions (and to virtual ones), stored in the given
    fields or in a 64-bit member of a builder, or compared with such a field"""
    for i in f.ins():
        if i.op == "call" and (i.callee is None or re.search(calls, i.callee)):
            vs = i.ops
        elif i.op == "store" and (re.search(fields, f.addr(i)) or (i.d.get("vty") == "i64" and "Builder#" in f.addr(i))):
            vs = i.ops[:1]
        elif i.op == "icmp" and any(re.search(fields, f.path(o)) for o in i.ops):
            vs = i.ops
        else:
            continue
        for v in vs:
            if i.op != "call" or _width(v) in (None, 64):
                wide(cx, f, v, what, key, i)
