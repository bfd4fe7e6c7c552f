import os

from engine.core import Prop
from rules.lib import *

P = Prop("P05")
P.explain = """
Flow graphs of the single-producer single-consumer queues (instantiated by drivers/queues.cpp).  Producer: the slot of the current
write position is written before the position is published with release, only when the queue is not full (fixed queue) or followed
by the eviction of the oldest element when the capacity is exceeded (overflowing queue).  Consumer: a slot is read only after the
write position was acquired and found different, and before the read position is advanced with release.  Results, size, emptiness
and capacity changes follow the positions."""
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "queues.cpp")
P.group("q", [DRV], containers=False)
F = "iox::concurrent::SpscFifo::"
S = "iox::concurrent::SpscSofi::"
for n, b in (("f_push", F + "push"), ("f_pop", F + "pop"), ("f_size", F + "size"), ("f_empty", F + "empty"), ("f_cap", F + "capacity"),
             ("s_push", S + "push"), ("s_pop", S + "pop"), ("s_size", S + "size"), ("s_empty", S + "empty"), ("s_cap", S + "capacity"), ("s_set", S + "setCapacity")):
    P.root("q", n, b)
CAP = 7
DATA = r"\.m_data"


def pos(f, rx):
    return lambda v: isinstance(v, Ins) and v.op == "load" and re.search(rx, f.addr(v)) is not None


def slot_index(f, addr, posval, size):
    """index of the slot access is position % size"""
    ix = index_of(f, addr)
    return isinstance(ix, Ins) and ix.op == "urem" and posval(f.strip(ix.ops[0])) and size(f.strip(ix.ops[1]))


def diff_is(f, a, b, want):
    d = adiff(f, a, b)
    c = sgn(d.pop(1, 0))
    names = {}
    for k, v in d.items():
        if not (isinstance(k, tuple) and k[0] == "load"):
            return False
        n = "W" if re.search(r"write", k[1], re.I) else "R" if re.search(r"read", k[1], re.I) else "S" if k[1].endswith("m_size") else k[1]
        names[n] = sgn(v)
    return dict(names, c=c) == want


def publication(cx, f, me, posrx, tag):
    """writes of the own position: one store position + 1, release"""
    ws = [i for i in writes_to(f, posrx)]
    for w in ws:
        cx.ob(w.op == "store" and diff_is(f, w.ops[0], [l for l in f.loads(posrx)][0], {"c": 1}) if f.loads(posrx) else False, f,
              "the own position is advanced by exactly one", tag + "/advance", w)
        cx.ob(w.ord in STRONG_REL, f, "the own position is published with release (is %s)" % w.ord, tag + "/publish-order", w)
    req_some(cx, f, ws, "the own position is advanced", tag + "/publish")
    return ws


@P.rule("R1", "fixed-size queue: write slot, then publish; never when full", min=8)
def fpush(cx):
    f = cx.fn("f_push")
    W, R = r"m_writePos\.", r"m_readPos\."
    ws = publication(cx, f, "W", W, "push")
    sl = writes_to(f, r"arg0" + DATA)
    req_some(cx, f, sl, "the element is stored", "push/slot")
    cx.ob(not writes_to(f, R), f, "the producer does not touch the read position", "push/foreign")
    full = lambda k, pol: (k[0] == "eq" and not pol and diff_is(f, k[1], k[2], {"W": 1, "R": -1, "c": -CAP})) or \
        (k[0] == "eq" and not pol and diff_is(f, k[1], k[2], {"W": -1, "R": 1, "c": CAP})) or \
        (k[0] == "ult" and pol and diff_is(f, k[1], k[2], {"W": 1, "R": -1, "c": -CAP}))
    for s in sl:
        req_guard(cx, f, s, full, "nothing is stored into a full queue", "push/full")
        cx.ob(slot_index(f, dst(s), pos(f, W), v_const(CAP)), f, "the element goes to the slot of the write position", "push/index", s)
        cx.ob(v_arg(1)(f.root_of(src(s)) if s.op == "call" else f.root_of(f.strip(s.ops[0]).ops[0]) if isinstance(f.strip(s.ops[0]), Ins) and f.strip(s.ops[0]).op == "load" else f.strip(s.ops[0])), f,
              "the stored element is the given one", "push/value", s)
    for w in ws:
        req_guard(cx, f, w, full, "nothing is published into a full queue", "push/full-publish")
        req_before(cx, f, w, f._pset(sl), "the element is stored before it is published", "push/before")
        req_never_after(cx, f, w, sl, "the slot is not written after it was published", "push/after")
    for l in f.loads(R):
        cx.ob(atleast_acq(l), f, "the producer acquires the read position (is %s): the slot may be reused" % l.ord, "push/acquire", l)
    rows = bool_rows(f, {"pub": f._pset(ws)}, {})
    check_rows(cx, f, rows, lambda r: r.lit["ret"] is (r.n("pub") == 1), "true exactly when the element was published", "push/result")
    g = cx.fn("f_cap")
    check_rows(cx, g, bool_rows(g, {}, {}), lambda r: isinstance(g.ret_value(r.ret, r.st), Val) and g.ret_value(r.ret, r.st).v == CAP, "the capacity is the configured one", "capacity")


@P.rule("R2", "fixed-size queue: acquire, read slot, then give it back; never when empty", min=7)
def fpop(cx):
    f = cx.fn("f_pop")
    W, R = r"m_writePos\.", r"m_readPos\."
    ws = publication(cx, f, "R", R, "pop")
    sl = reads_of(f, r"arg1" + DATA)
    req_some(cx, f, sl, "the element is read", "pop/slot")
    cx.ob(not writes_to(f, W), f, "the consumer does not touch the write position", "pop/foreign")
    some = lambda k, pol: k[0] == "eq" and not pol and (diff_is(f, k[1], k[2], {"W": 1, "R": -1, "c": 0}) or diff_is(f, k[1], k[2], {"W": -1, "R": 1, "c": 0}))
    for s in sl:
        req_guard(cx, f, s, some, "nothing is read from an empty queue", "pop/empty")
        cx.ob(slot_index(f, src(s), pos(f, R), v_const(CAP)), f, "the element is read from the slot of the read position", "pop/index", s)
    for w in ws:
        req_guard(cx, f, w, some, "the read position never passes the write position", "pop/empty-advance")
        req_before(cx, f, w, f._pset(sl), "the element is read before its slot is given back", "pop/before")
        req_never_after(cx, f, w, sl, "the slot is not read after it was given back", "pop/after")
    for l in f.loads(W):
        cx.ob(atleast_acq(l), f, "the consumer acquires the write position (is %s)" % l.ord, "pop/acquire", l)
    rows = table(f, {"pub": f._pset(ws), "some": store(r"^arg0\.m_hasValue$", isconst(1)), "none": store(r"^arg0\.m_hasValue$", isconst(0))})
    check_rows(cx, f, rows, lambda r: (r.n("pub") == 1) == (bool(r.ev) and [e for e in r.ev if e != "pub"][-1:] == ["some"]), "an element is returned exactly when one was taken", "pop/result")


@P.rule("R3", "size and emptiness are the distance of the positions", min=4)
def sizes(cx):
    for rid in ("f_size", "s_size"):
        f = cx.fn(rid)
        for r in f.rets():
            cx.ob(diff_is(f, r.ops[0], Val("c", 0), {"W": 1, "R": -1, "c": 0}), f, "size is write position - read position", rid, r)
    for rid in ("f_empty", "s_empty"):
        f = cx.fn(rid)
        for r in f.rets():
            k, pol = f.lit(f.strip(r.ops[0]))
            cx.ob(k[0] == "eq" and pol and (diff_is(f, k[1], k[2], {"W": 1, "R": -1, "c": 0}) or diff_is(f, k[1], k[2], {"W": -1, "R": 1, "c": 0})), f,
                  "empty exactly when the positions are equal", rid, r)
    # the overflowing queue moves both positions from the producer: the pair must have been seen unchanged
    for rid in ("s_size", "s_empty"):
        f = cx.fn(rid)
        for nm, rx in (("write", r"m_writePosition\."), ("read", r"m_readPosition\.")):
            again = lambda k, pol: k[0] == "eq" and pol and all(isinstance(x, Ins) and x.op == "load" and re.search(rx, f.addr(x)) for x in (f.strip(k[1]), f.strip(k[2]))) and f.strip(k[1]) is not f.strip(k[2])
            w = f.search(None, is_ret, None, again)
            cx.ob(w is None, f, "the %s position is found unchanged before the pair is used" % nm, rid + "/stable-" + nm, None, w)


@P.rule("R4", "overflowing queue, producer: store, publish with release, evict the oldest element exactly when the capacity is exceeded", min=9)
def spush(cx):
    f = cx.fn("s_push")
    W, R = r"m_writePosition\.", r"m_readPosition\."
    size = lambda v: f.path(v).endswith("m_size") if isinstance(v, Ins) else False
    ws = publication(cx, f, "W", W, "push")
    sl = writes_to(f, r"arg0" + DATA)
    for s in sl:
        cx.ob(slot_index(f, dst(s), pos(f, W), size), f, "the element goes to the slot of the write position", "push/index", s)
    for w in ws:
        req_before(cx, f, w, f._pset(sl), "the element is stored before it is published", "push/before")
        req_never_after(cx, f, w, sl, "the slot is not written after it was published", "push/after")
    cs = [i for i in writes_to(f, R)]
    cx.ob(bool(cs) and all(i.op == "cmpxchg" for i in cs), f, "the producer moves the read position only by compare-and-swap", "push/cas")
    room = lambda k, pol: k[0] == "ult" and diff_is(f, k[1], k[2], {"W": 1, "R": -1, "S": -1, "c": 1}) and pol
    over = lambda k, pol: k[0] == "ult" and diff_is(f, k[1], k[2], {"W": 1, "R": -1, "S": -1, "c": 1}) and not pol
    won = cas_success(cas(R))
    ev = reads_of(f, r"arg0" + DATA)
    req_some(cx, f, ev, "the evicted element is handed out", "push/evict")
    for c in cs:
        if c.op != "cmpxchg":
            continue
        cx.ob(adiff(f, c.ops[2], c.ops[1]) == {1: 1} and f.derives(c.ops[1], pos(f, R)), f, "eviction takes exactly the oldest element", "push/evict-one", c)
        req_guard(cx, f, c, over, "an element is only evicted when the capacity is exceeded", "push/early")
        for e in ev:
            req_guard(cx, f, e, holds(won), "the evicted element is read only after winning it", "push/won")
            cx.ob(slot_index(f, src(e), lambda v: same(f, v, c.ops[1]), size) and v_arg(2)(f.root_of(dst(e)) if e.op == "call" else None) or e.op != "call", f, "the element handed out is the evicted one", "push/evict-slot", e)
    rows = bool_rows(f, {"pub": f._pset(ws), "out": f._pset(ev), "cas": f._pset(cs)}, {"won": won, "room": lambda k, pol: True if room(k, pol) else False if over(k, pol) else None})
    check_rows(cx, f, rows, lambda r: r.n("pub") == 1, "every push publishes its element", "push/always")
    check_rows(cx, f, rows, lambda r: r.lit.get("room") is True or r.n("cas") >= 1, "no push leaves the queue over its capacity", "push/over")
    check_rows(cx, f, rows, lambda r: (r.lit["ret"] is False) == (r.lit.get("won") is True) == (r.n("out") == 1), "overflow is reported exactly with the evicted element", "push/result")


@P.rule("R5", "overflowing queue, consumer: acquire, read, and keep the element only if the read position could be advanced", min=5)
def spop(cx):
    f = cx.fn("s_pop")
    W, R = r"m_writePosition\.", r"m_readPosition\."
    size = lambda v: f.path(v).endswith("m_size") if isinstance(v, Ins) else False
    for l in f.loads(W):
        cx.ob(atleast_acq(l), f, "the consumer acquires the write position (is %s)" % l.ord, "pop/acquire", l)
    cs = [i for i in writes_to(f, R)]
    cx.ob(bool(cs) and all(i.op == "cmpxchg" for i in cs) and not writes_to(f, W), f, "the consumer moves the read position only by compare-and-swap", "pop/cas")
    for c in cs:
        cx.ob(c.ord in STRONG_REL, f, "the slot is given back with release (is %s)" % c.ord, "pop/release", c)
    sl = reads_of(f, r"arg0" + DATA)
    req_some(cx, f, sl, "the element is read", "pop/slot")
    rd = lambda v: f.derives(v, lambda x: isinstance(x, Ins) and x.op in ("load", "cmpxchg") and re.search(R, f.addr(x)) is not None)
    for s in sl:
        ix = index_of(f, src(s))
        cx.ob(isinstance(ix, Ins) and ix.op == "urem" and rd(ix.ops[0]) and size(f.strip(ix.ops[1])) and any(same(f, ix.ops[0], c.ops[1]) for c in cs), f,
              "the element is read from the slot of the read position that is advanced", "pop/index", s)
        req_guard(cx, f, s, lambda k, pol: k[0] == "eq" and not pol and any((pos(f, W)(k[i]) and rd(k[3 - i])) for i in (1, 2)), "nothing is read from an empty queue", "pop/empty")
    won = cas_success(cas(R))

    def step(st, i):
        if i in sl:
            st["read"] = True
        if i in cs and i.op == "cmpxchg":
            d = adiff(f, res(f, i.ops[2], st), res(f, i.ops[1], st)) if res(f, i.ops[2], st) is not res(f, i.ops[1], st) else {}
            if d not in ({}, {1: 1}):
                d = adiff(f, res1(f, i.ops[2], st), f.strip(i.ops[1]))
            st["adv"] = 0 if d == {} else 1 if d == {1: 1} else 9
            st["rd"] = st.get("read", False)
            st["read"] = False
            st["won"] = None
        return None

    def edge(st, k, pol):
        t = won(k, pol)
        if t is not None:
            st["won"] = t
        return None
    bad = None
    n = 0
    for r, st, tr in f.simulate({}, step, edge):
        n += 1
        v = f.ret_value(r, st)
        v = bool(v.v) if isinstance(v, Val) and v.k == "c" else None
        good = (v is True and st.get("adv") == 1 and st.get("rd") and st.get("won")) or (v is False and (st.get("adv") in (0, None) or (not st.get("won"))) and not (st.get("adv") == 1 and st.get("won")))
        if not good:
            bad = (r, tr, st)
    cx.ob(n > 0 and bad is None, f, "true exactly when the read element could be taken (read before the position moved by one)", "pop/result", bad[0] if bad else None, bad[1] if bad else None)


def res1(f, v, st):
    v = f.strip(v)
    if isinstance(v, Ins) and v.op == "phi" and ("phi", v.id) in st:
        return f.strip(st[("phi", v.id)])
    return v


@P.rule("R6", "the capacity changes only while the queue is empty and within the storage; both positions restart together", min=4)
def cap(cx):
    f = cx.fn("s_set")
    W, R = r"m_writePosition\.", r"m_readPosition\."
    st = f.stores(r"m_size$")
    req_some(cx, f, st, "the capacity is stored", "set/store")
    em = lambda k, pol: k[0] == "eq" and pol and (diff_is(f, k[1], k[2], {"W": 1, "R": -1, "c": 0}) or diff_is(f, k[1], k[2], {"W": -1, "R": 1, "c": 0}))

    def fits(k, pol):
        # arg1 + c <= m  with m - c <= CAP
        if k[0] != "ult":
            return False
        a, b = (k[1], k[2]) if pol else (k[2], k[1])
        bound = b if pol else b
        # pol: a < b ; not pol: b' <= a' i.e. key(k1=limit, k2=value) false => value <= limit
        if pol:
            val, lim, sub = k[1], k[2], 1
        else:
            val, lim, sub = k[2], k[1], 0
        d = dict(f.affine(val))
        c = sgn(d.pop(1, 0))
        return d == {("arg", 1): 1} and isinstance(lim, Val) and lim.k == "c" and lim.v - sub - c <= CAP
    for s in st:
        req_guard(cx, f, s, em, "the capacity is only changed while the queue is empty", "set/empty")
        req_guard(cx, f, s, fits, "the new capacity fits the storage", "set/fits")
        cx.ob(f.affine(s.ops[0]) == {("arg", 1): 1, 1: 1}, f, "one slot more than the capacity is cycled through", "set/slots", s)
    wr, rr = writes_to(f, W), writes_to(f, R)
    cx.ob(all(v_const()(f.strip(i.ops[0])) for i in wr + rr) and len({f.strip(i.ops[0]).v for i in wr + rr}) <= 1 and bool(wr) == bool(rr), f, "both positions restart at the same value", "set/restart")
    rows = bool_rows(f, {"set": f._pset(st), "w": f._pset(wr), "r": f._pset(rr)}, {})
    check_rows(cx, f, rows, lambda r: r.lit["ret"] is (r.n("set") == 1) and r.n("w") == r.n("r"), "true exactly when the capacity was changed", "set/result")
    g = cx.fn("s_cap")
    for r in g.rets():
        a = g.affine(r.ops[0])
        cx.ob(sgn(a.get(1, 0)) == -1 and len(a) == 2 and any("m_size" in repr(k) for k in a), g, "the reported capacity is one less than the cycled slots", "cap", r)
