import os

from engine.core import Prop
from rules.lib import *

P = Prop("P06")
P.explain = """
Multi-producer multi-consumer queue (instantiated by drivers/queues.cpp).  Index queues: positions and cells change only by
compare-and-swap of the value read, cell values carry the cycle of the position they are published for, a position is only claimed
when the cell of that position holds a value of the same cycle (or the queue was found full / long enough), publication releases and
claiming acquires.  Element level: every slot number follows the cycle free -> element constructed -> used -> element moved out and
destroyed -> free, on every path, and none is lost or handed out twice; capacity changes are exclusive and move one slot at a time."""
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "queues.cpp")
I = "iox::concurrent::MpmcIndexQueue::"
Q = "iox::concurrent::MpmcLockFreeQueue::"
Z = "iox::concurrent::MpmcResizeableLockFreeQueue::"
P.group("ix", [DRV], containers=False)
P.group("q", [DRV], containers=False, opaque=[r"^iox::concurrent::MpmcIndexQueue::", r"^vd::Own::", r"^iox::(vector|stack)::", r"^iox::optional::optional"])
P.root("ix", "i_push", I + "push")
P.root("ix", "i_pop", I + "pop", filter=r"pop\(unsigned long&\)")
P.root("ix", "i_full", I + "popIfFull", filter=r"\(unsigned long&\)")
P.root("ix", "i_least", I + "popIfSizeIsAtLeast", filter=r"long&\)")
P.root("ix", "i_empty", I + "empty")
P.root("ix", "i_ctor", I + "MpmcIndexQueue", min=2)
P.root("q", "q_try", Q + "tryPush", min=2)
P.root("q", "q_push", Q + "push", min=2)
P.root("q", "q_pop", Q + "pop")
P.root("q", "z_push", Z + "push", min=2)
P.root("q", "z_set", Z + "setCapacity")
CAP = 7
CELLS, WP, RP = r"arg0\.m_cells", r"arg0\.m_writePosition\.", r"arg0\.m_readPosition\."


def from_pos(f, rx):
    return lambda v: f.derives(v, lambda x: isinstance(x, Ins) and x.op in ("load", "cmpxchg") and re.search(rx, f.addr(x)) is not None)


def div(f, v):
    v = f.strip(v)
    if isinstance(v, Ins) and v.op == "udiv" and v_const(CAP)(f.strip(v.ops[1])):
        return f.strip(v.ops[0])
    return None


def rem(f, v):
    v = f.strip(v)
    if isinstance(v, Ins) and v.op == "urem" and v_const(CAP)(f.strip(v.ops[1])):
        return f.strip(v.ops[0])
    return None


def succ(f, d, e):
    """d is the successor of position e: e + 1, or the wrap-around start when e is the largest value"""
    d = f.strip(d)
    if adiff(f, d, e) == {1: 1}:
        return True
    if isinstance(d, Ins) and d.op == "phi":
        plus = [o for o in d.ops if adiff(f, o, e) == {1: 1}]
        rest = [f.strip(o) for o in d.ops if adiff(f, o, e) != {1: 1}]
        wrap = (((1 << 64) - 1) % CAP + 1) % CAP
        return bool(plus) and all((isinstance(o, Val) and o.k == "c" and o.v == wrap) or adiff(f, o, e) == {1: (wrap + 1)} for o in rest)
    return False


def wraps(f):
    """a comparison with cycle 0 (wrap-around) only happens for the last cycle"""
    if not hasattr(f, "_wraps"):
        f._wraps = True

        def form(k):
            if k[0] != "eq":
                return None
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if div(f, a) is not None:
                    b = f.strip(b)
                    if v_const(((1 << 64) - 1) // CAP)(b):
                        return "last"
                    if v_const(0)(b):
                        return "zero"
                    if isinstance(b, Ins) and b.op == "add" and any(v_const(1)(f.strip(o)) for o in b.ops) and any(div(f, o) is not None for o in b.ops):
                        return "next"
            return None

        def edge(st, k, pol):
            n = form(k)
            if n == "last":
                st["last"] = pol
            elif n == "zero" and st.get("last") is not True or n == "next" and st.get("last") is not False:
                f._wraps = False
            return None
        for r, st, tr in f.simulate({}, lambda s, i: None, edge):
            if r.ops:
                v = res(f, r.ops[0], st)
                if isinstance(v, Ins):
                    edge(st, f.lit(v)[0], True)
    return f._wraps


def behind(f, isa, isb):
    """cycle(a) + 1 == cycle(b), with wrap-around"""
    def p(k, pol):
        if k[0] != "eq" or not pol or not wraps(f):
            return False
        for x, y in ((k[1], k[2]), (k[2], k[1])):
            # x == cycle(a) + 1, y == cycle(b)
            b = div(f, y)
            if b is not None and isb(b):
                xa = f.strip(x)
                if isinstance(xa, Ins) and xa.op == "add":
                    for o, c in ((xa.ops[0], xa.ops[1]), (xa.ops[1], xa.ops[0])):
                        if v_const(1)(f.strip(c)) and div(f, o) is not None and isa(div(f, o)):
                            return True
                if v_const(0)(x):
                    return True  # wrap-around branch: only reached for the last cycle
        return False
    return p


def same_cycle(f, isa, isb):
    def p(k, pol):
        if k[0] != "eq" or not pol:
            return False
        return any(div(f, x) is not None and div(f, y) is not None and isa(div(f, x)) and isb(div(f, y)) for x, y in ((k[1], k[2]), (k[2], k[1])))
    return p


def cell_of(f, posp):
    """value read from (or left behind by a failed swap of) the cell of the position"""
    def p(v):
        return f.derives(v, lambda x: isinstance(x, Ins) and x.op in ("load", "cmpxchg") and re.search(CELLS, f.addr(x)) is not None
                         and index_of(f, x.ops[0]) is not None and rem(f, index_of(f, x.ops[0])) is not None and posp(rem(f, index_of(f, x.ops[0]))))
    return p


@P.rule("R1", "index queue, push: one cell published per push, stamped with its cycle, released; the write position follows", min=7)
def ipush(cx):
    f = cx.fn("i_push")
    W = from_pos(f, WP)
    cc = writes_to(f, CELLS)
    cx.ob(bool(cc) and all(c.op == "cmpxchg" for c in cc), f, "a cell is only changed by compare-and-swap", "cell-cas")
    cs = [c for c in cc if c.op == "cmpxchg"]
    cell = cell_of(f, W)
    for c in cs:
        ix = index_of(f, c.ops[0])
        w = rem(f, ix) if ix is not None else None
        cx.ob(w is not None and W(w), f, "the cell of the write position is used", "cell", c)
        cx.ob(cell(c.ops[1]), f, "the swap expects the value that was examined", "expected", c)
        d = f.affine(c.ops[2])
        cyc = [k for k in d if isinstance(k, tuple) and k[0] == "v"]
        ok = d.get(("arg", 1)) == 1 and len(d) == 2 and len(cyc) == 1 and d[cyc[0]] == CAP and any(i.id == cyc[0][1] and div(f, i) is not None and w is not None and same(f, div(f, i), w) for i in f.ins())
        cx.ob(ok, f, "the published value is the given index stamped with the cycle of the write position", "stamp", c)
        cx.ob(c.ord in STRONG_REL, f, "publication releases (is %s)" % c.ord, "release", c)
        req_guard(cx, f, c, behind(f, cell, W), "only a cell that was left one cycle behind is overwritten", "free")
    ws = writes_to(f, WP)
    cx.ob(bool(ws) and all(c.op == "cmpxchg" for c in ws) and not writes_to(f, RP), f, "the write position is only changed by compare-and-swap", "wp-cas")
    won = cas_success(cas(CELLS))
    for c in ws:
        if c.op != "cmpxchg":
            continue
        cx.ob(succ(f, c.ops[2], c.ops[1]) and W(c.ops[1]), f, "the write position moves to its successor", "wp-succ", c)
        req_guard(cx, f, c, either(holds(won), same_cycle(f, cell, W)), "the write position only moves past a published cell", "wp-guard")
        cx.ob(c.ord in STRONG_REL, f, "moving the write position releases (is %s)" % c.ord, "wp-release", c)
    for l in f.loads(CELLS):
        cx.ob(atleast_acq(l), f, "the examined cell is acquired (is %s)" % l.ord, "acquire", l)
    w = f.search(None, is_ret, None, holds(won))
    cx.ob(w is None, f, "push returns only after publishing its index", "published", None, w)
    w = f.search(None, is_ret, f._pset(ws))
    cx.ob(w is None, f, "push tries to move the write position before it returns", "wp-follow", None, w)
    for c in cs:
        w = f.search(c, lambda i: i in cs, None, holds(won, False))
        cx.ob(w is None, f, "a push publishes exactly once", "once", c, w)


@P.rule("R2", "index queue, pop: a read position is claimed only with its published value, acquired", min=15)
def ipop(cx):
    for rid, out in (("i_pop", 1), ("i_full", 1), ("i_least", 2)):
        f = cx.fn(rid)
        R, W = from_pos(f, RP), from_pos(f, WP)
        cell = cell_of(f, R)
        rs = writes_to(f, RP)
        cx.ob(bool(rs) and all(c.op == "cmpxchg" for c in rs) and not writes_to(f, CELLS) and not writes_to(f, WP), f, "the read position is only changed by compare-and-swap", rid + "/cas")
        won = cas_success(cas(RP))
        valid = same_cycle(f, R, cell)
        full = behind(f, R, W)

        def least(k, pol):
            if k[0] not in ("ult", "slt"):
                return False
            a, b = f.strip(k[1]), f.strip(k[2])
            # not (W - R < minSize)
            if not pol and v_arg(1)(b):
                return dist(a)
            return False

        def dist(a):
            return len(f.affine(a)) == 2 and isinstance(a, Ins) and a.op == "sub" and W(a.ops[0]) and R(a.ops[1])

        def ahead(k, pol):
            """the write position is not behind the read position"""
            if k[0] not in ("ult", "slt"):
                return False
            a, b = f.strip(k[1]), f.strip(k[2])
            if k[0] == "slt" and dist(a) and (v_const(0)(b) or v_arg(1)(b)) and not pol:
                return True
            if k[0] == "slt" and dist(b) and isinstance(a, Val) and a.k == "c" and a.v in (0, (1 << 64) - 1) and pol:
                return True
            return k[0] == "ult" and ((W(a) and R(b) and not pol) or (R(a) and W(b) and pol))
        samei = lambda k, pol: k[0] == "eq" and pol and all(rem(f, k[i]) is not None for i in (1, 2)) and any(W(rem(f, k[i])) and R(rem(f, k[3 - i])) for i in (1, 2))
        for c in rs:
            if c.op != "cmpxchg":
                continue
            cx.ob(R(c.ops[1]) and succ(f, c.ops[2], c.ops[1]), f, "exactly one position is claimed", rid + "/succ", c)
            g = {"i_pop": valid, "i_full": full, "i_least": either(valid, least)}[rid]
            req_guard(cx, f, c, g, "a position is claimed only when its cell is valid", rid + "/valid")
            if rid == "i_least":
                req_guard(cx, f, c, either(valid, ahead), "a write position that is seen behind the read position does not count as elements", rid + "/ahead")
            if rid == "i_full":
                req_guard(cx, f, c, samei, "full means that both positions address the same cell", rid + "/full")
            rd = [l for l in f.loads(CELLS)]
            req_before(cx, f, c, f._pset(rd), "the cell is read before the position is claimed", rid + "/read-first")
            w = f.search(c, lambda i: i is c, f._pset(rd))
            cx.ob(w is None, f, "the cell is read again in every round", rid + "/reread", c, w)
        for l in f.loads(CELLS):
            cx.ob(atleast_acq(l), f, "the claimed cell is acquired (is %s)" % l.ord, rid + "/acquire", l)
            ix = index_of(f, l.ops[0])
            cx.ob(ix is not None and rem(f, ix) is not None and R(rem(f, ix)), f, "the cell of the read position is read", rid + "/cell", l)
        if rid != "i_pop":
            for l in f.loads(WP):
                cx.ob(atleast_acq(l), f, "the write position is acquired (is %s)" % l.ord, rid + "/wp-acquire", l)
        outs = [s for s in f.stores() if f.addr(s) == "arg%d" % out]
        req_some(cx, f, outs, "the claimed index is handed out", rid + "/out")
        for s in outs:
            req_guard(cx, f, s, holds(won), "an index is handed out only after it was claimed", rid + "/claimed")
            cx.ob(rem(f, s.ops[0]) is not None and cell(rem(f, s.ops[0])), f, "the index handed out is the one in the cell", rid + "/value", s)
        rows = bool_rows(f, {"out": f._pset(outs)}, {"won": won})
        check_rows(cx, f, rows, lambda r: r.lit["ret"] in (True, False) and (r.lit["ret"] is True) == (r.n("out") == 1), "true exactly when an index was handed out", rid + "/result")
        if rid == "i_pop":
            emp = behind(f, cell, R)
            w = f.search(None, is_ret, None, either(holds(won), emp))
            cx.ob(w is None, f, "empty is reported only when the cell was left one cycle behind", rid + "/empty", None, w)
    f = cx.fn("i_empty")
    R = from_pos(f, RP)
    cell = cell_of(f, R)
    ok = True
    for r, st, tr in f.simulate({}, lambda s, i: None):
        v = res(f, r.ops[0], st)
        k, pol = f.lit(v)
        if not behind(f, cell, R)(k, pol):
            ok = False
    cx.ob(ok, f, "empty exactly when the cell of the read position was left one cycle behind", "i_empty")


@P.rule("R3", "an index queue starts consistent: empty, or holding every index once", min=4)
def ctor(cx):
    for f in cx.fns("i_ctor"):
        full = "Full" in f.full
        iw, ir = [s for s in f.stores(r"m_writePosition")], [s for s in f.stores(r"m_readPosition")]
        cells = f.stores(r"m_cells")
        cx.ob(len(iw) == 1 and len(ir) == 1 and v_const(CAP)(f.strip(iw[0].ops[0])) and v_const(0 if full else CAP)(f.strip(ir[0].ops[0])), f, "initial positions", "pos")
        for s in cells:
            ix = index_of(f, s.ops[1])
            if ix is not None:
                starts = [f.strip(o) for o in ix.ops if not (isinstance(f.strip(o), Ins) and f.derives(o, lambda x: x is ix))] if isinstance(ix, Ins) and ix.op == "phi" else []
                if starts and all(isinstance(x, Val) and x.k == "c" for x in starts):
                    cx.ob(all(x.v == 0 for x in starts), f, "initialisation starts with the first cell", "first", s)
                    for lim, add in loop_limits(f, s, ix):
                        if isinstance(f.strip(lim), Val) and f.strip(lim).k == "c":
                            cx.ob(f.strip(lim).v + add == CAP, f, "initialisation covers every cell and no more", "cover", s)
                if full:
                    cx.ob(same(f, s.ops[0], ix), f, "every cell holds its own index", "full", s)
                else:
                    cx.ob(v_const(0)(f.strip(s.ops[0])), f, "every cell is one cycle behind", "empty", s)


def token(cx, f, me, rid):
    """typestate of the slot number a queue operation holds"""
    FREE, USED, UNUSED = me + r"\.m_freeIndices", me + r"\.m_usedIndices", me + r"\.m_unusedIndices"
    BUF = me + r"\.m_buffer"
    bad = []

    def at(i, rx, n=0):
        return n < len(i.ops) and re.search("^" + rx, f.path(i.ops[n])) is not None

    def step(st, i):
        if i.op != "call" or not i.callee:
            if i.op == "atomicrmw" and re.search("^" + me + r"\.m_(size|capacity)", f.addr(i)) and not v_const(1)(f.strip(i.ops[1])):
                bad.append((i, "the counters move by one element at a time"))
                return False
            if i.op == "atomicrmw" and re.search("^" + me + r"\.m_size", f.addr(i)):
                st["size"] = st.get("size", 0) + (1 if i.rmw == "add" else -1)
                if abs(st["size"]) > 2:
                    bad.append((i, "the element count does not follow the elements"))
                    return False
            if i.op == "atomicrmw" and re.search("^" + me + r"\.m_capacity", f.addr(i)):
                st["cap"] = st.get("cap", 0) + (1 if i.rmw == "add" else -1)
                if abs(st["cap"]) > 2:
                    bad.append((i, "the capacity does not follow the slots in circulation"))
                    return False
            return None
        t = st.get("tok", "none")

        def need(want, new, msg):
            if t not in want:
                bad.append((i, msg + " (slot is %s)" % t))
                return False
            st["tok"] = new
            return None
        n = i.callee
        if n.endswith("MpmcIndexQueue::push"):
            if at(i, USED):
                return need(("full",), "none", "a slot without an element is queued for reading")
            if at(i, FREE):
                if t == "back":
                    st["tok"] = "given"
                    st["own"] = st.get("own", 0) + 1
                    return None
                return need(("raw",), "none", "a slot that still holds an element (or none at all) is given back")
        elif re.search(r"MpmcIndexQueue::pop(If\w+)?$", n):
            if t not in ("none",) or "src" in st:
                bad.append((i, "a slot is dropped (slot is %s)" % t))
                return False
            st["src"] = "raw" if at(i, FREE) else "full"
            if n.endswith("popIfSizeIsAtLeast") and not f.mentions(i.ops[1], r"m_capacity"):
                bad.append((i, "eviction compares with something else than the capacity"))
        elif n == "vd::Own::Own" and at(i, BUF):
            st["el"] = st.get("el", 0) + 1
            return need(("raw",), "full", "an element is constructed in a slot that is not free")
        elif n == "iox::optional::optional" and len(i.ops) > 1 and at(i, BUF, 1):
            st["el"] = st.get("el", 0) - 1
            return need(("full",), "moved", "an element is taken from a slot that holds none")
        elif n == "vd::Own::~Own" and at(i, BUF):
            return need(("moved",), "raw", "an element is destroyed without being handed out")
        elif n.endswith("vector::push_back") and at(i, UNUSED):
            st["own"] = st.get("own", 0) - 1
            return need(("raw",), "none", "a slot that still holds an element is retired")
        elif n.endswith("vector::back") and at(i, UNUSED):
            return need(("none", "back"), "back", "a slot is dropped")
        elif n.endswith("vector::pop_back") and at(i, UNUSED):
            return need(("given",), "none", "a retired slot is lost")
        return None

    def edge(st, k, pol):
        t = truth_call(r"MpmcIndexQueue::pop(If\w+)?$")(k, pol)
        if t is not None:
            if t:
                st["tok"] = st.pop("src", "full")
            else:
                st.pop("src", None)
        # at quiescent points (no slot in hand) the capacity equals the slots in circulation
        if st.get("tok", "none") == "none" and st.get("own", 0) == st.get("cap", 0):
            st.pop("own", None)
            st.pop("cap", None)
        if st.get("el", 0) == st.get("size", 0):
            st.pop("el", None)
            st.pop("size", None)
        return None
    n = 0
    for r, st, tr in f.simulate({}, step, edge, phis=False):
        n += 1
        if "src" in st:
            bad.append((r, "the outcome of taking a slot is not looked at"))
        if st.get("tok", "none") != "none":
            bad.append((r, "the operation returns while holding a slot (%s)" % st["tok"]))
        if st.get("el", 0) != st.get("size", 0):
            bad.append((r, "the element count does not follow the elements"))
        if st.get("own", 0) != st.get("cap", 0):
            bad.append((r, "the capacity does not equal the slots in circulation"))
    cx.ob(n > 0, f, "paths analysed", rid + "/paths")
    if not bad:
        cx.ob(True, f, "slot life cycle", rid + "/cycle")
    for i, msg in bad[:3]:
        cx.ob(False, f, msg, rid + "/cycle", i)


@P.rule("R4", "every slot follows free -> element -> used -> taken out -> free; none is lost, none duplicated", min=16)
def cycle(cx):
    for rid, me in (("q_try", "arg0"), ("q_push", "arg1"), ("q_pop", "arg1"), ("z_push", "arg1"), ("z_set", "arg0")):
        for f in cx.fns(rid):
            token(cx, f, me, rid)


@P.rule("R5", "results: pushed exactly once, an evicted element is returned, an element is returned exactly when taken", min=8)
def results(cx):
    push = lambda me: call(r"MpmcIndexQueue::push$", (0, me + r"\.m_usedIndices"))
    for f in cx.fns("q_try"):
        rows = bool_rows(f, {"push": push("arg0")}, {})
        check_rows(cx, f, rows, lambda r: r.lit["ret"] is (r.n("push") == 1), "true exactly when the element was queued", "try")
    for rid in ("q_push", "z_push"):
        for f in cx.fns(rid):
            take = lambda i: i.op == "call" and i.callee == "iox::optional::optional" and len(i.ops) > 1 and "m_buffer" in f.path(i.ops[1])
            rows = table(f, {"push": push("arg1")}, {})
            check_rows(cx, f, rows, lambda r: r.n("push") == 1, "every push queues its element exactly once", rid + "/once")
            for t in matching(f, take):
                # the evicted element must reach the result: constructed in arg0 or assigned/moved to it
                direct = f.path(t.ops[0]).startswith("arg0")
                mv = [i for i in f.ins() if i.op == "call" and i.callee and re.search(r"Own::(Own|operator=)$", i.callee) and f.path(i.ops[0]).startswith("arg0")]
                cx.ob(direct or bool(mv) or bool([i for i in f.calls(r"optional::optional$") if f.path(i.ops[0]).startswith("arg0") and len(i.ops) > 1]), f, "an evicted element is returned to the caller", rid + "/evicted", t)
    for f in cx.fns("q_pop"):
        rows = table(f, {"free": call(r"MpmcIndexQueue::push$", (0, r"m_freeIndices")), "val": lambda i: i.op == "call" and i.callee == "iox::optional::optional" and len(i.ops) > 1 and f.path(i.ops[0]) == "arg0"})
        check_rows(cx, f, rows, lambda r: r.n("free") == r.n("val"), "an element is returned exactly when its slot was taken", "pop")


@P.rule("R6", "the capacity is changed by one caller at a time and within the storage", min=3)
def setcap(cx):
    for f in cx.fns("z_set"):
        flag = r"m_resizeInProgress"
        ch = [i for i in f.ins() if i.op == "atomicrmw" and "m_capacity" in f.addr(i)] + f.calls(r"MpmcIndexQueue::") + f.calls(r"vector::(push_back|pop_back|back)$")
        x = [i for i in f.ins() if i.op in ("atomicrmw", "cmpxchg") and flag in f.addr(i)]
        clr = [i for i in f.stores(flag)]
        req_some(cx, f, x, "a resize in progress is marked atomically", "mark")
        for b in f.calls(r"vector::back$"):
            w = f.unguarded(b, holds(vec_empty(r"m_unusedIndices"), False), True)
            cx.ob(w is None, f, "a slot is only taken from a non-empty reserve", "reserve", b, w)
        got = lambda k, pol: (k[0] == "eq" and isnull(k[2]) and pol and k[1] in x) or (k[0] == "b" and not pol and k[1] in x)
        for c in ch[:12]:
            w = f.search(None, lambda i, c=c: i is c, None, got)
            cx.ob(w is None, f, "the capacity is only changed by the caller that marked the resize", "excl", c, w)
            w = f.search(None, lambda i, c=c: i is c, None, lambda k, pol: k[0] == "ult" and ((not pol and v_const(CAP)(k[1]) and v_arg(1)(k[2])) or (pol and v_arg(1)(k[1]) and v_const(CAP + 1)(k[2]))))
            cx.ob(w is None, f, "a capacity beyond the storage is refused", "limit", c, w)
        rows = bool_rows(f, {"clr": f._pset(clr)}, {"got": lambda k, pol: True if got(k, pol) else False if got(k, not pol) else None})
        check_rows(cx, f, rows, lambda r: (r.lit.get("got") is True) == (r.n("clr") == 1) and r.lit["ret"] is (r.lit.get("got") is True), "the mark is removed by its owner on every return", "clear")
        for c in clr:
            cx.ob(c.ord in STRONG_REL, f, "the mark is removed with release (is %s)" % c.ord, "clear-order", c)
            for d in ch[:12]:
                w = f.search(c, lambda i, d=d: i is d)
                if w:
                    cx.ob(False, f, "nothing is changed after the mark was removed", "after", d, w)
            eq = lambda k, pol: k[0] == "eq" and pol and any(v_arg(1)(k[i]) and f.mentions(k[3 - i], "m_capacity") for i in (1, 2))
            w = f.search(None, lambda i: i is c, None, eq)
            cx.ob(w is None, f, "success means that the requested capacity was reached", "reached", c, w)
