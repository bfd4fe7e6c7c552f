from engine.core import Prop
from rules.lib import *

P = Prop("P04")
P.explain = """
Flow graphs of the lock-free free list.  The head word is only ever changed by compare-and-swap; the swapped-in word carries
counter+1 and, for a take, the successor of exactly the slot that is taken, for a give the slot that was validated and linked in
the same round; slot numbers are range checked in every round; a taken slot is marked, an unmarked slot is refused; results equal
the outcome of the swap; the orderings form release/acquire pairs; initialisation chains all slots and stays inside the reserved memory."""
P.group("lf", ["iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"], containers=False,
        opaque=[r"RelativePointer::computeRawPtr$", r"^iox::RelativePointer<.*>::(RelativePointer|operator=)\([^()]*\*( const)?\)$"])
P.group("sz", ["iceoryx_posh/source/mepoo/mem_pool.cpp"])
L = "iox::concurrent::MpmcLoFFLi::"
P.root("lf", "init", L + "init")
P.root("lf", "pop", L + "pop")
P.root("lf", "push", L + "push")
P.root("sz", "req", L + "requiredIndexMemorySize")

HEAD = r"arg0\.m_head"
CELL = r"arg0\.m_nextFreeIndex->"


@P.rule("R1", "the head is only changed by compare-and-swap of the word just read, with counter + 1 and full ordering", min=10)
def cas_rule(cx):
    for rid in ("pop", "push"):
        f = cx.fn(rid)
        cs = matching(f, cas(HEAD))
        req_some(cx, f, cs, "the head is changed by compare-and-swap", rid + "/cas")
        oth = [i for i in f.ins() if i.op in ("store", "atomicrmw") and re.search(HEAD, f.addr(i))]
        cx.ob(not oth, f, "the head is not changed otherwise", rid + "/plain", oth[0] if oth else None)
        for l in f.loads(HEAD):
            cx.ob(atleast_acq(l), f, "the head is read with acquire (is %s)" % l.ord, rid + "/load-order", l)
        for c in cs:
            cx.ob(c.ord in ("acq_rel", "seq_cst"), f, "the swap is acquire-release (is %s)" % c.ord, rid + "/cas-order", c)
            retried = f.search(c, lambda i: i is c) is not None
            cx.ob(not retried or c.d.get("ford") in STRONG_ACQ or f.search(c, lambda i: i is c, f._pset([l for l in f.loads(HEAD) if atleast_acq(l)])) is None, f,
                  "a failed swap re-reads the head with acquire", rid + "/fail-order", c)
            eh, el = halves(f, c.ops[1])
            dh, dl = halves(f, c.ops[2])
            head = lambda v: f.derives(v, lambda x: isinstance(x, Ins) and x.op in ("load", "cmpxchg") and re.search(HEAD, f.addr(x)) is not None)
            cx.ob(head(c.ops[1]), f, "the swap expects the word that was read from the head", rid + "/expected", c)
            ok = dh is not None
            if ok:
                if eh is None:
                    # expected is the whole word: counter must be its high half + 1
                    hi = [x for x in f.ins() if x.op == "lshr" and f.strip(x.ops[0]) is el]
                    ok = any(adiff(f, dh, x) == {1: 1} for x in hi)
                else:
                    ok = adiff(f, dh, eh) == {1: 1}
            cx.ob(ok, f, "every swap increments the ABA counter", rid + "/aba", c)


def expected_index(f, c):
    return halves(f, c.ops[1])[1]


@P.rule("R2", "a take removes exactly the first slot of the list, marks it as taken and returns it", min=8)
def pop_rule(cx):
    f = cx.fn("pop")
    for c in matching(f, cas(HEAD)):
        el = expected_index(f, c)
        _, dl = halves(f, c.ops[2])
        succ = isinstance(dl, Ins) and dl.op == "load" and re.search(CELL, f.addr(dl)) and index_of(f, dl.ops[0]) is not None and same(f, index_of(f, dl.ops[0]), el)
        cx.ob(succ, f, "the new head is the successor of the taken slot", "successor", c)
        inr = lambda k, pol: k[0] == "ult" and ((same(f, k[1], el) and f.path(k[2]).endswith("m_size") and pol))
        req_guard(cx, f, c, inr, "the slot number is below the capacity in every round", "range")
        for l in f.loads(CELL):
            req_guard(cx, f, l, inr, "the list memory is only read inside the capacity", "range-read")
    ok = cas_success(cas(HEAD))
    out = store(r"^arg1$")
    mark = lambda i: i.op == "store" and re.search(CELL, f.addr(i)) is not None
    fence = lambda i: i.op == "fence" and i.ord in STRONG_REL
    rows = bool_rows(f, {"out": out, "mark": mark, "fence": fence}, {"won": ok})
    check_rows(cx, f, rows, lambda r: returns_iff(r, "won"), "success is reported exactly when the swap succeeded", "result")
    check_rows(cx, f, rows, lambda r: not r.lit.get("won") or (r.n("out") == 1 and r.n("mark") == 1), "a taken slot is reported and marked", "marked")
    check_rows(cx, f, rows, lambda r: not r.lit.get("won") or "fence" in r.ev[r.ev.index("mark"):] if "mark" in r.ev else True, "the mark is published (release) before the slot is handed out", "fence")
    cs = matching(f, cas(HEAD))
    for s in matching(f, mark):
        req_guard(cx, f, s, holds(ok), "list memory is written only after the swap succeeded", "late-write")
        ix = index_of(f, s.ops[1])
        cx.ob(ix is not None and any(same(f, ix, expected_index(f, c)) for c in cs) and f.path(s.ops[0]).endswith("m_invalidIndex"), f,
              "the taken slot is the one that is marked as taken", "mark-slot", s)
    for s in matching(f, out):
        cx.ob(any(same(f, s.ops[0], expected_index(f, c)) for c in cs), f, "the reported slot is the taken one", "out-slot", s)


@P.rule("R3", "a give links exactly the given slot, only if it is in range and currently taken", min=8)
def push_rule(cx):
    f = cx.fn("push")
    ok = cas_success(cas(HEAD))
    cs = matching(f, cas(HEAD))
    rows = bool_rows(f, {"cas": cas(HEAD)}, {"won": ok})
    check_rows(cx, f, rows, lambda r: returns_iff(r, "won"), "success is reported exactly when the swap succeeded", "result")
    inr = lambda k, pol: k[0] == "ult" and v_arg(1)(k[1]) and f.path(k[2]).endswith("m_size") and pol
    cell = lambda v: isinstance(v, Ins) and v.op == "load" and re.search(CELL, f.addr(v)) is not None and index_of(f, v.ops[0]) is not None and v_arg(1)(index_of(f, v.ops[0]))
    taken = lambda k, pol: k[0] == "eq" and pol and ((cell(k[1]) and f.path(k[2]).endswith("m_invalidIndex")) or (cell(k[2]) and f.path(k[1]).endswith("m_invalidIndex")))
    for c in cs:
        w = f.search(None, lambda i: i is c, None, inr)
        cx.ob(w is None, f, "the slot number is below the capacity", "range", c, w)
        w = f.search(None, lambda i: i is c, None, taken)
        cx.ob(w is None, f, "a slot that is not taken (double give) is refused", "double", c, w)
        cx.ob(v_arg(1)(halves(f, c.ops[2])[1]), f, "the new head is the given slot", "head", c)
        el = expected_index(f, c)
        link = lambda i: i.op == "store" and re.search(CELL, f.addr(i)) is not None and index_of(f, i.ops[1]) is not None and v_arg(1)(index_of(f, i.ops[1])) and same(f, i.ops[0], el)
        req_before(cx, f, c, link, "the given slot points to the old head before it becomes the head", "link")
        w = f.search(c, lambda i: i is c, link)
        cx.ob(w is None, f, "the link is renewed in every round", "relink", c, w)
    for s in f.stores(CELL):
        ix = index_of(f, s.ops[1])
        cx.ob(ix is not None and v_arg(1)(ix), f, "only the given slot is written", "own-slot", s)
        req_guard(cx, f, s, lambda k, pol: inr(k, pol), "list memory is only written inside the capacity", "range-write", loop=False)
        w = f.search(None, lambda i: i is s, None, taken)
        cx.ob(w is None, f, "a slot that is not taken is left alone", "untaken-write", s, w)
        w = None
        for c in cs:
            w = w or f.search(None, lambda i: i is s, None, None) and f.search(c, lambda i: i is s, None, holds(ok, False))
        cx.ob(w is None, f, "a slot is not written any more once it is part of the list", "late-write", s, w)
    for l in matching(f, lambda i: cell(i)):
        req_before(cx, f, l, lambda i: (i.op == "fence" and i.ord in STRONG_ACQ) or (i.op == "load" and re.search(HEAD, f.addr(i)) is not None and atleast_acq(i)),
                   "the mark is read after an acquire operation", "acquire")


@P.rule("R4", "initialisation chains all slots in order, ends the chain at the capacity and stays in the reserved memory", min=6)
def init_rule(cx):
    f = cx.fn("init")
    rng = lambda k, pol: k[0] == "ult" and v_arg(2)(k[1]) and v_const()(k[2]) and pol and k[2].v <= 0xFFFFFFFE
    nz = lambda k, pol: (k[0] == "eq" and v_arg(2)(k[1]) and v_const(0)(k[2]) and not pol) or (k[0] == "ult" and v_const(0)(k[1]) and v_arg(2)(k[2]) and pol)
    st = f.stores(r"arg0\.m_size$")
    cx.ob(len(st) == 1 and v_arg(2)(f.strip(st[0].ops[0])), f, "the capacity is the requested one", "size")
    for s in st:
        req_guard(cx, f, s, rng, "the capacity leaves room for the end and taken markers", "limit")
        req_guard(cx, f, s, nz, "a capacity of zero is refused", "zero")
    inv = f.stores(r"arg0\.m_invalidIndex$")
    size = lambda d: d in ({("arg", 2): 1}, {("load", "arg0.m_size"): 1})
    for s in inv:
        a = dict(f.affine(s.ops[0]))
        k = sgn(a.pop(1, 0))
        cx.ob(size(a) and k >= 1, f, "the taken marker is neither a slot nor the end of the list", "marker", s)
    req_some(cx, f, inv, "the taken marker is set", "marker-set")
    cells = f.stores(CELL)
    req_some(cx, f, cells, "the list is chained", "chain")
    limit = None
    for s in cells:
        ix = index_of(f, s.ops[1])
        cx.ob(ix is not None and adiff(f, s.ops[0], ix) == {1: 1}, f, "every slot points to the next one", "next", s)
        if isinstance(ix, Ins) and ix.op == "phi":
            starts = [f.strip(o) for o in ix.ops if not (isinstance(f.strip(o), Ins) and f.derives(o, lambda x: x is ix))]
            if all(isinstance(x, Val) and x.k == "c" for x in starts):
                cx.ob(all(x.v == 0 for x in starts), f, "the chain starts at slot 0", "first", s)
                for lim, add in loop_limits(f, s, ix):
                    a = dict(f.affine(lim))
                    c = sgn(a.pop(1, 0)) + add
                    limit = c
                    cx.ob(size(a) and 0 <= c <= 1, f, "the chain covers all slots and not more than the reserved memory", "last", s)
    g = cx.fn("req")
    for r in g.rets():
        a = g.affine(r.ops[0])
        cx.ob(a.get(("arg", 0)) == 4 and sgn(a.get(1, 0)) >= 4 * (limit if limit is not None else 1), g, "the reserved memory holds all slots", "reserve", r)

