from engine.core import Prop
from engine.absint import Interp, Sym, L, S, K, M64
from rules.lib import *

P = Prop("P07")
P.explain = """
Value dataflow over all paths of UsedChunkList (two intrusive lists threaded through shared memory): the final contents of
the list cells and heads are computed as forms over the initial ones and compared with the list operation they must
implement; coverage of all slots in cleanup; publication order of the synchroniser."""
U = "iox::popo::UsedChunkList::"
PP = "iceoryx_posh/source/popo/ports/"
P.group("u", [PP + x for x in ("publisher_port_user.cpp", "publisher_port_roudi.cpp", "subscriber_port_user.cpp", "subscriber_port_multi_producer.cpp", "subscriber_port_roudi.cpp", "publisher_port_data.cpp", "subscriber_port_data.cpp")],
        opaque=[r"^iox::mepoo::(SharedChunk|ShmSafeUnmanagedChunk)::(?!ShmSafeUnmanagedChunk\(\)|SharedChunk\(\))"])
for n in ("insert", "remove", "cleanup", "UsedChunkList"):
    P.root("u", n, U + n)
FREE, USED, IDX, DATA, SYNC = r"arg0\.m_freeListHead$", r"arg0\.m_usedListHead$", r"arg0\.m_listIndices", r"arg0\.m_listData", r"arg0\.m_synchronizer"
LISTW = r"arg0\.m_(freeListHead|usedListHead|listIndices|listData)"


def cap_of(f):
    return int(re.search(r"UsedChunkList<(\d+)", f.full).group(1))


def nm(rx):
    return rx.replace("\\", "").rstrip("$")


def eq(a, b):
    return isinstance(a, L) and isinstance(b, L) and (a - b).const() == 0


def invalid(cx):
    """value of INVALID_INDEX per capacity: what a new list has as used head"""
    out = {}
    for f in cx.fns("UsedChunkList"):
        st = [i for i in f.stores(USED)]
        if st and v_const()(f.strip(st[-1].ops[0])):
            out[cap_of(f)] = f.strip(st[-1].ops[0]).v
    return out


def interp(f, free, used):
    mem = {nm(FREE): free, nm(USED): used}
    it = Interp(f, {0: S(Sym("this", 8, 1 << 62, 8)), 1: S(Sym("a1", 1, 1 << 62)), 2: S(Sym("a2", 1, 1 << 62))}, lambda k: mem.get(k))
    return it, it.run()


def writes(p):
    return [e for e in p.events if (e[0] == "store" and re.search(LISTW, e[1])) or
            (e[0] == "call" and MEMCPY.search(e[1].callee or "") and re.search(LISTW, e[3][0] or "")) or
            (e[0] == "call" and re.search(r"(operator=|ShmSafeUnmanagedChunk::ShmSafeUnmanagedChunk)$", e[1].callee or "") and re.search(DATA, e[3][0] or ""))]


@P.rule("R1", "insert moves the first free slot to the used list with the chunk in it; a full list refuses and changes nothing", min=8)
def insert(cx):
    inv = invalid(cx)
    for f in cx.fns("insert"):
        INV = inv.get(cap_of(f), cap_of(f))
        u0 = S(Sym("U0", 0, INV))
        it, outs = interp(f, K(INV), u0)
        cx.ob(bool(outs) and all(v.const() == 0 and not writes(p) for p, v, r in outs), f, "a full list refuses and stays as it is", "full")
        f0 = S(Sym("F0", 0, INV - 1))
        it, outs = interp(f, f0, u0)
        cell, data = "%s[]{%r}" % (nm(IDX), f0), "%s[]{%r}" % (nm(DATA), f0)
        cx.ob(bool(outs) and all(v.const() == 1 for p, v, r in outs), f, "a free slot is always used", "free")
        cx.ob(all(eq(p.mem.get(nm(FREE)), p.init.get(cell)) for p, v, r in outs), f, "the free list continues with the next free slot", "free-next")
        cx.ob(all(eq(p.mem.get(nm(USED)), f0) for p, v, r in outs), f, "the slot becomes the head of the used list", "used-head")
        cx.ob(all(eq(p.mem.get(cell), u0) for p, v, r in outs), f, "the slot links to the previous used head", "used-link")
        cx.ob(all({e[1] if e[0] == "store" else e[3][0] for e in writes(p)} <= {nm(FREE), nm(USED), cell, data} for p, v, r in outs), f, "no other cell is touched", "frame")

        def stored(p):
            # the slot gets an owner made from the given chunk
            w = [e for e in writes(p) if (e[1] if e[0] == "store" else e[3][0]) == data]
            if not w:
                return False
            e = w[-1]
            src = e[1].ops[1] if e[0] == "call" else e[4].ops[0]
            mk = [c for c in f.calls(r"ShmSafeUnmanagedChunk::ShmSafeUnmanagedChunk$")]
            cp = [c for c in f.calls(r"SharedChunk::SharedChunk$") if f.path(c.ops[1]) == "arg1"]
            return any(f.root_of(c.ops[0]) is f.root_of(src) or e[1] is c for c in mk) and \
                any(any(f.root_of(c.ops[1]) is f.root_of(x.ops[0]) for x in cp) or f.path(c.ops[1]) == "arg1" for c in mk)
        cx.ob(all(stored(p) for p, v, r in outs), f, "the slot holds the given chunk", "data")


@P.rule("R2", "remove finds the chunk in the used list, hands out its ownership and returns the slot to the free list", min=10)
def remove(cx):
    inv = invalid(cx)
    for f in cx.fns("remove"):
        INV = inv.get(cap_of(f), cap_of(f))
        f0, u0 = S(Sym("F0", 0, INV)), S(Sym("U0", 0, INV))
        it, outs = interp(f, f0, u0)
        found = [(p, v, r) for p, v, r in outs if v.const() == 1]
        rest = [(p, v, r) for p, v, r in outs if v.const() != 1]
        cx.ob(bool(found) and all(v.const() == 0 and not writes(p) for p, v, r in rest), f, "a chunk that is not in the list is refused without a change", "refuse")
        ok = dict(release=True, match=True, head=True, unlink=True, free=True, link=True, frame=True, out=True)
        for p, v, r in found:
            rel = [e for e in p.events if e[0] == "call" and (e[1].callee or "").endswith("::releaseToSharedChunk") and re.search(DATA, e[3][-1] or "")]
            if len(rel) != 1:
                ok["release"] = False
                continue
            m = re.search(r"\{(.*)\}$", rel[0][3][-1])
            ck = m.group(1) if m else None
            cur = next((s for h in p.heads.values() for s in h.values() if repr(s) == ck), None)
            if cur is None:
                ok["release"] = False
                continue
            cell = "%s[]{%s}" % (nm(IDX), ck)
            nxt = p.init.get(cell)
            hd = [e for e in p.events if e[0] == "call" and (e[1].callee or "").endswith("::getChunkHeader")]
            if not hd or hd[-1][3][0] != rel[0][3][-1]:
                ok["match"] = False
            # was the slot the head?
            ishead = None
            for e in p.events:
                if e[0] == "br" and isinstance(e[3], tuple) and e[3][0] == "cmp" and e[3][1] in ("eq", "ne"):
                    a, b = e[3][2], e[3][3]
                    t = e[2] if e[3][1] == "eq" else not e[2]
                    if (eq(a, cur) and eq(b, u0)) or (eq(b, cur) and eq(a, u0)):
                        ishead = t
                    for x, y in ((a, b), (b, a)):
                        pv = [s for h in p.heads.values() for s in h.values() if eq(x, s) and s is not cur]
                        if pv and y.const() == INV:
                            ishead = t
            linked = [e for e in writes(p) if e[0] == "store" and re.search(IDX, e[1]) and e[1] != cell]
            if ishead is None:
                ok["head"] = False
            elif ishead:
                ok["unlink"] &= eq(p.mem.get(nm(USED)), nxt) and not linked
            else:
                ok["unlink"] &= len(linked) == 1 and eq(linked[0][3], nxt) and (nm(USED) not in p.mem or eq(p.mem[nm(USED)], u0)) and \
                    any("{%r}" % s in linked[0][1] for h in p.heads.values() for s in h.values() if s is not cur)
            ok["free"] &= eq(p.mem.get(nm(FREE)), cur)
            ok["link"] &= eq(p.mem.get(cell), f0)
            asg = [e for e in p.events if e[0] == "call" and re.search(r"SharedChunk::operator=$", e[1].callee or "") and e[3][0] == "arg2"]
            ok["out"] &= any(f.root_of(e[1].ops[1]) is f.root_of(rel[0][1].ops[0]) for e in asg) or f.path(rel[0][1].ops[0]) == "arg2"
        for t, what in (("release", "exactly the slot found gives up its ownership"), ("match", "the slot is the one whose header matches"),
                        ("head", "head and inner slots are told apart"), ("unlink", "the slot is unlinked from the used list, the others stay linked"),
                        ("free", "the slot becomes the first free one"), ("link", "the slot links to the previous first free one"),
                        ("out", "the ownership goes to the caller")):
            cx.ob(ok[t], f, what, t)
        # the walk
        good = bool(it.loops)
        for q, b, h, bk in it.loops:
            cur = [k for k in h if eq(bk.get(k), q.init.get("%s[]{%r}" % (nm(IDX), h[k])))]
            good &= len(cur) == 1
            if cur:
                pv = [k for k in h if k not in cur and eq(bk.get(k), h[cur[0]])]
                good &= len(pv) >= 1 or len(h) == 1
                for p, b2, en in it.entries:
                    if b2 == b:
                        good &= eq(en.get(cur[0]), u0)
        cx.ob(good, f, "the walk starts at the used head, follows the links and remembers the previous slot", "walk")
        for c in f.calls(r"::releaseToSharedChunk$"):
            req_guard(cx, f, c, lambda k, pol: k[0] == "eq" and pol and any(isinstance(x, Ins) and x.op == "call" and x.callee.endswith("getChunkHeader") for x in k[1:3]) and any(v_arg(1)(x) for x in k[1:3]),
                      "ownership is only given up for the requested chunk", "requested")


@P.rule("R3", "cleanup gives back every chunk still recorded, whatever the links look like, and empties the list", min=4)
def cleanup(cx):
    for f in cx.fns("cleanup"):
        n = cap_of(f)
        rel = [c for c in f.calls(r"::releaseToSharedChunk$")]
        why = [covers(f, c, c.ops[-1], DATA + "$", n, 8) for c in rel]
        cx.ob(any(w is None for w in why), f, "all %d slots are given back (%s)" % (n, why), "all")
        for c in rel:
            # released temporary is dropped
            d = [x for x in f.calls(r"SharedChunk::~SharedChunk$") if f.root_of(x.ops[0]) is f.root_of(c.ops[0])]
            w = f.must_follow(c, lambda i, d=d: i in d) if d else [c]
            cx.ob(w is None, f, "a reference taken from a slot is dropped", "drop", c, w if d else None)
        acq = [i for i in f.ins() if i.op == "atomicrmw" and re.search(SYNC, f.addr(i))]
        for c in f.calls(r"::(isLogicalNullptr|releaseToSharedChunk)$"):
            w = f.must_precede(c, lambda i: i in acq and atleast_acq(i))
            cx.ob(w is None, f, "the slots are read after synchronising with the owner", "acquire", c, w)


def initial(cx, rid):
    inv = invalid(cx)
    for f in cx.fns(rid):
        n = cap_of(f)
        INV = inv.get(n)
        st = [i for i in f.stores(IDX)]
        loop = [i for i in st if index_of(f, i.ops[1]) is not None]
        good = False
        for i in loop:
            ix = index_of(f, i.ops[1])
            if covers(f, i, i.ops[1], IDX + "$", n, 4) is None and adiff(f, i.ops[0], ix) == {1: 1}:
                good = True
        cx.ob(good, f, "every slot links to the next one", "chain")
        tail = [i for i in st if i not in loop and v_const(INV)(f.strip(i.ops[0])) and f.addr(i).endswith("+%d" % (4 * (n - 1)))]
        cx.ob(INV == n or bool(tail), f, "the last slot ends the list", "end")
        cx.ob(all(i in loop or (i in tail) for i in st), f, "no other link is written", "links")
        for fld, val, t in ((FREE, 0, "free"), (USED, INV, "used")):
            w = [i for i in f.stores(fld)]
            last = [i for i in w if f.search(i, is_ret, lambda x, w=w: x in w and x is not i) is not None]
            cx.ob(bool(last) and all(v_const(val)(f.strip(i.ops[0])) for i in last), f, "heads: all slots free, none used", "head-" + t)
            on_all_returns(cx, f, lambda i, w=w: i in w, "heads are reset on every path", "head-" + t)


@P.rule("R4", "a new or cleaned list has all slots free and none used", min=8)
def init(cx):
    initial(cx, "UsedChunkList")
    initial(cx, "cleanup")


@P.rule("R5", "every change of the list is published for the process that cleans up", min=4)
def publish(cx):
    for rid in ("insert", "remove", "cleanup", "UsedChunkList"):
        for f in cx.fns(rid):
            pub = [i for i in f.stores(SYNC) if i.ord and atleast_rel(i)]
            req_some(cx, f, pub, "the synchroniser is released", rid + "/some")
            for e in writes_to(f, LISTW):
                if e in f.stores(r"arg0\.m_(freeListHead|usedListHead)$") and rid == "UsedChunkList":
                    continue
                w = f.must_follow(e, lambda i: i in pub)
                cx.ob(w is None, f, "the change is followed by a release of the synchroniser", rid + "/after", e, w)
