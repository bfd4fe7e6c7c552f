import os

from engine.core import Prop
from rules.lib import *

P = Prop("P26")
P.explain = ""
R = "iceoryx_posh/source/roudi/memory/"
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "memory.cpp")
P.group("mem", [R + "memory_provider.cpp"], opaque=[r"^iox::align", r"^iox::BumpAllocator::", r"^iox::UntypedRelativePointer|^iox::RelativePointer::(un)?register"])
for n in ("create", "destroy", "announceMemoryAvailable", "addMemoryBlock", "baseAddress", "segmentId", "size", "isAvailable"):
    P.root("mem", n, "iox::roudi::MemoryProvider::" + n)
P.group("mgr", [R + "roudi_memory_manager.cpp"], opaque=[r"^iox::roudi::MemoryProvider::"])
for n in ("createAndAnnounceMemory", "destroyMemory", "addMemoryProvider", "~RouDiMemoryManager"):
    P.root("mgr", n, "iox::roudi::RouDiMemoryManager::" + n)
OPQ = [r"^iox::align", r"^iox::BumpAllocator::", r"^iox::mepoo::", r"^iox::roudi::PortPoolData::", r"^iox::algorithm::maxVal", r"^iox::popo::"]
for g, file, cls in (("coll", "mempool_collection_memory_block", "MemPoolCollectionMemoryBlock"), ("seg", "mempool_segment_manager_memory_block", "MemPoolSegmentManagerMemoryBlock"), ("port", "port_pool_memory_block", "PortPoolMemoryBlock")):
    P.group(g, [R + file + ".cpp"], opaque=OPQ + [r"^iox::roudi::\w+MemoryBlock::(size|alignment)$"])
    for n in ("size", "alignment", "onMemoryAvailable", "destroy", {"coll": "memoryManager", "seg": "segmentManager", "port": "portPool"}[g], "~" + cls):
        P.root(g, g + "_" + n.replace("~" + cls, "dtor").replace("memoryManager", "get").replace("segmentManager", "get").replace("portPool", "get"), "iox::roudi::%s::%s" % (cls, n))
P.group("sgm", ["iceoryx_posh/source/mepoo/segment_manager.cpp"], opaque=[r"^iox::mepoo::MemoryManager::", r"^iox::mepoo::MePooSegment::"])
P.root("sgm", "sgm_required", "iox::mepoo::SegmentManager::requiredManagementMemorySize")
P.root("sgm", "sgm_requiredChunk", "iox::mepoo::SegmentManager::requiredChunkMemorySize")
P.group("shm", [R + "posix_shm_memory_provider.cpp"], opaque=[r"^iox::PosixSharedMemoryObject", r"^iox::detail::pageSize", r"^iox::roudi::MemoryProvider::", r"iceoryxResourcePrefix", r"^iox::concatenate"])
for n in ("createMemory", "destroyMemory", "~PosixShmMemoryProvider"):
    P.root("shm", "shm_" + n, "iox::roudi::PosixShmMemoryProvider::" + n)
P.group("drv", [DRV], opaque=[r"^vd::T::", r"^iox::FileLock::", r"^iox::roudi::(RouDiMemoryManager|PosixShmMemoryProvider|\w+MemoryBlock)::~", r"^iox::roudi::MemoryBlock::"])
for n in ("size", "alignment", "destroy", "onMemoryAvailable"):
    P.root("drv", "s_" + n, "vd::Block::slot_" + n)
for n in ("createMemory", "destroyMemory"):
    P.root("drv", "s_" + n, "vd::Provider::slot_" + n)
P.root("drv", "g_emplace", "vd::g_emplace")
P.root("drv", "drop", "vd::drop")
for n in ("size", "alignment", "destroy", "value"):
    P.root("drv", "g_" + n, "iox::roudi::GenericMemoryBlock::" + n, filter=r"vd::T")
for n in ("port", "coll", "seg", "g"):
    P.root("drv", "sizeof_" + n, "vd::sizeof_" + n)
    P.root("drv", "alignof_" + n, "vd::alignof_" + n)
P.explain = """
Decision tables of creation, announcement and destruction of RouDi's management memory (what is asked for, registered, handed to the
blocks, given back, in which order and on which outcome), a recurrence for the size requested against the allocator it is divided with,
and per block the agreement of size, alignment and placement, single construction and single destruction."""
VEC = r"^arg1\.m_memoryBlocks$"




def slot(i):
    """position of the virtual function an indirect call goes to"""
    l = i.fn.strip(i.ind) if i.ind is not None else None
    if not (isinstance(l, Ins) and l.op == "load"):
        return None
    m = re.search(r"\+(\d+)$", i.fn.path(l.ops[0]))
    return int(m.group(1)) if m else 0


class Virt:
    """calls of virtual functions, identified by the position that calls through the base class show"""
    def __init__(self, cx):
        self.off = {}
        for n in ("size", "alignment", "destroy", "onMemoryAvailable", "createMemory", "destroyMemory"):
            l = cx.fn("s_" + n).indirect()
            self.off[n] = slot(l[0]) if l else None

    def __call__(self, n, this=None):
        def p(i):
            if i.op not in ("call", "invoke"):
                return False
            if i.callee:
                return re.search(r"^iox::roudi::\w*Memory(Block|Provider)::%s$" % n, i.callee) is not None
            if self.off[n] is None or slot(i) != self.off[n]:
                return False
            at = 1 if n in ("createMemory", "destroyMemory") else 0
            if len(i.ops) <= at:
                return False
            k = i.ops[at]
            own = i.fn.path(k) == "arg1"
            return own if n in ("createMemory", "destroyMemory") else not own
        return p


def unchanging(p):
    p.stable = True
    return p


def enumv(cx, name):
    return cx.enum("iox::roudi::MemoryProviderError")[name]


def elem(f, v):
    """iterator/element access a block (provider) pointer was read through"""
    s = f.strip(v)
    return s.ops[0] if isinstance(s, Ins) and s.op == "load" else None


def each(cx, f, e, v, vec, what, tag, leave=None):
    p = elem(f, v)
    w = "does not act on an element" if p is None else covers_vec(f, e, p, vec, leave)
    cx.ob(w is None, f, "%s%s" % (what, "" if w is None else " (%s)" % w), tag, e)


def value_of(f, v, src):
    """v is the value held by the expected/optional that a call satisfying src wrote (or src's own result)"""
    s = f.strip(v)
    if isinstance(s, Ins) and s.op == "call" and src(s):
        return True
    if not (isinstance(s, Ins) and s.op == "load"):
        return False
    r = f.root_of(s.ops[0])
    return isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and src(w) and w.ops and f.root_of(w.ops[0]) is r for w in f.writers(r))


def calls_in(f, src, v):
    """the call satisfying src behind the value v"""
    s = f.strip(v)
    return s if isinstance(s, Ins) and s.op == "call" and src(s) else None


def atleast(f, v, prev, size, al, depth=0):
    """v >= align(prev, al) + size for every outcome (align rounds up)"""
    ALIGN = call(r"^iox::align$")
    s = f.strip(v)
    if isinstance(s, Ins) and s.op == "call" and ALIGN(s) and depth < 4:
        if atleast(f, s.ops[0], prev, size, al, depth + 1):
            return True
    a = f.affine(v)
    base = need = False
    for t, c in a.items():
        if t == 1:
            if c < 0 or c >= 1 << 63:
                return False
            continue
        if t[0] != "v" or c < 1 or c >= 1 << 63:
            return False
        i = f.strip(next((x for x in f.ins() if x.id == t[1]), None))
        if isinstance(i, Ins) and i.op == "call" and ALIGN(i):
            x, y = f.strip(i.ops[0]), f.strip(i.ops[1])
            if x is prev and al(y):
                base = True
            elif size(x):
                need = True
        elif isinstance(i, Ins) and size(i):
            need = True
    return base and need


def leaves(f, v, stop, depth=0):
    """(value, literals that hold when it is the one chosen)"""
    s = f.strip(v)
    if s is stop or depth > 6 or not isinstance(s, Ins):
        return [(s, [])]
    if s.op == "select":
        out = []
        for pol, o in ((True, s.ops[1]), (False, s.ops[2])):
            lit = f.lit(s.ops[0])
            out += [(x, l + ([(lit[0], lit[1] == pol)] if lit else [])) for x, l in leaves(f, o, stop, depth + 1)]
        return out
    if s.op == "phi":
        out = []
        for o, b in zip(s.ops, s.d["from"]):
            last = f.blocks[b][-1]
            ls = []
            for _, sc, dnf, t in f.edges():
                if len(dnf) == 1:
                    for k, pol in dnf[0]:
                        if (t is last and sc == s.blk) or f.search(stop, lambda i: i is last, None, lambda k2, p2, k=k, pol=pol: k2 == k and p2 == pol) is None:
                            ls.append((k, pol))
            out += [(x, l + ls) for x, l in leaves(f, o, stop, depth + 1)]
        return out
    return [(s, [])]


def is_max(f, v, prev, al):
    """v is the larger one of prev and an alignment"""
    s = f.strip(v)
    if isinstance(s, Ins) and s.op == "call" and re.search(r"^llvm\.umax|::(max|maxVal)$", s.callee or ""):
        return any(f.strip(o) is prev for o in s.ops) and any(al(f.strip(o)) for o in s.ops)
    ls = leaves(f, v, prev)
    some = False
    for x, lits in ls:
        own = x is prev
        if not own and not al(x):
            return False
        some = some or not own
        good = False
        for k, pol in lits:
            if k[0] != "ult":
                continue
            p, q = f.strip(k[1]), f.strip(k[2])
            if (p is prev and al(q)) and pol == (not own):
                good = True  # prev < al
            if (al(p) and q is prev) and pol == own:
                good = True  # al < prev
        if not good:
            return False
    return some


@P.rule("R1", "the memory asked for holds all blocks, is registered, and each block gets its part of it", min=20)
def r1(cx):
    V = Virt(cx)
    f = cx.fn("create")
    CREATE, REG, BUMP, ALLOC = V("createMemory"), call(r"::registerPtr$"), call(r"^iox::BumpAllocator::BumpAllocator$"), call(r"^iox::BumpAllocator::allocate$")
    cm = matching(f, CREATE)
    req_some(cx, f, cm, "the memory is created", "create/some")
    MEM, SIZE = store(r"^arg1\.m_memory$"), store(r"^arg1\.m_size$")
    BLK = lambda i: i.op == "store" and re.search(r"\.m_memory$", f.path(i.ops[1])) is not None and not MEM(i)
    empty = unchanging(vec_empty(VEC))
    avail = nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and f.path(v.ops[0]) == "arg1.m_memory")
    lits = {"empty": empty, "avail": avail, "made": exp_ok(CREATE, True), "reg": opt_has(REG)}
    ev = {"create": CREATE, "mem": MEM, "size": SIZE, "reg": REG, "bump": BUMP, "alloc": ALLOC, "blk": BLK, "seg": store(r"^arg1\.m_segmentId$")}
    rows = exp_rows(f, ev, lits)
    check_rows(cx, f, rows, lambda r: not r.n("create") or (r.lit.get("empty") is False and r.lit.get("avail") is False), "memory is created only for a provider with blocks and without memory", "create/when")
    check_rows(cx, f, rows, lambda r: r.lit.get("empty") is not True or (r.lit["ret"] == "err" and v_const(enumv(cx, "NO_MEMORY_BLOCKS_PRESENT"))(r.lit["val"])), "no blocks is reported as such", "create/empty")
    check_rows(cx, f, rows, lambda r: r.n("create") > 0 or r.lit["ret"] == "err", "without memory the creation fails", "create/none")
    check_rows(cx, f, rows, lambda r: not r.n("create") or r.lit.get("made") is not None, "the outcome of the creation is examined", "create/examined")
    check_rows(cx, f, rows, lambda r: r.lit.get("made") is not False or (r.lit["ret"] == "err" and r.ev == ("create",) and value_of(f, r.lit["val"], CREATE)), "a failed creation is passed on and leaves the provider without memory", "create/failed")
    check_rows(cx, f, rows, lambda r: r.lit["ret"] != "ok" or (all(r.n(x) == 1 for x in ("create", "mem", "size", "reg", "bump", "seg")) and r.lit.get("reg") is True), "success means created, registered and divided", "create/ok")
    for c in matching(f, ALLOC):
        w = f.search(c, lambda x: x is c or (store(EXP_TAG)(x) and v_const(0)(f.strip(x.ops[0]))), None, holds(exp_ok(ALLOC)))
        cx.ob(w is None, f, "a block without memory is an error", "create/alloc", c)
    req_some(cx, f, [r for r in rows if r.lit["ret"] == "ok"], "some success", "create/someok")
    for i in matching(f, MEM):
        cx.ob(value_of(f, i.ops[0], CREATE), f, "the memory kept is the one created", "create/mem", i)
    for i in matching(f, SIZE):
        cx.ob(any(same(f, i.ops[0], c.ops[2]) for c in cm), f, "the size kept is the one asked for", "create/size", i)
    ismem = lambda v: f.path(v) == "*arg1.m_memory" or value_of(f, v, CREATE)
    issize = lambda v: f.path(v) == "*arg1.m_size" or any(same(f, v, c.ops[2]) for c in cm)
    for i in matching(f, REG):
        cx.ob(ismem(i.ops[1]) and issize(i.ops[2]), f, "what is registered is the memory created, completely", "create/reg", i)
    for i in matching(f, anyof(REG, BUMP)):
        for o, st in ((i.ops[1], MEM), (i.ops[2], SIZE)):
            if f.path(o).startswith("*arg1."):
                req_before(cx, f, f.strip(o), st, "address and size are kept before they are used", "create/kept")
    for i in matching(f, store(r"^arg1\.m_segmentId$")):
        cx.ob(value_of(f, i.ops[0], REG) or isinstance(f.strip(i.ops[0]), Ins) and "m_value" in f.path(i.ops[0]), f, "the segment id kept is the registered one", "create/seg", i)
    for i in matching(f, BUMP):
        cx.ob(ismem(i.ops[1]) and issize(i.ops[2]), f, "the blocks are placed in the memory created", "create/bump", i)
    # every block's part
    al = matching(f, ALLOC)
    req_some(cx, f, al, "memory is allocated for the blocks", "create/allocs")
    failed = holds(exp_ok(ALLOC), False)
    for i in al:
        s, a = calls_in(f, V("size"), i.ops[2]), calls_in(f, V("alignment"), i.ops[3])
        cx.ob(s is not None and a is not None and same(f, s.ops[0], a.ops[0]), f, "a block is allocated with its own size and alignment", "create/allocargs", i)
        cx.ob(any(f.root_of(b.ops[0]) is f.root_of(i.ops[1]) for b in matching(f, BUMP)), f, "all blocks are allocated from the same allocator", "create/allocfrom", i)
        if s is not None:
            each(cx, f, i, s.ops[0], VEC, "every block is allocated", "create/alloceach", failed)
    bs = matching(f, BLK)
    req_some(cx, f, bs, "the blocks learn their memory", "create/blks")
    for i in bs:
        cx.ob(value_of(f, i.ops[0], ALLOC), f, "a block's memory is what was allocated for it", "create/blkval", i)
        o = f.ptr(i.ops[1])
        root = f.strip(next((x for x in (s.ops[0] for s in (calls_in(f, V("size"), c.ops[2]) for c in al) if s is not None)), None))
        cx.ob(root is not None and (f.root_of(i.ops[1]) is root or same(f, f.root_of(i.ops[1]), root)), f, "it is given to the block it was allocated for", "create/blkown", i)
        req_guard(cx, f, i, holds(exp_ok(ALLOC)), "only if the allocation succeeded", "create/blkok")
        for c in al:
            w = f.search(c, lambda x: x in al or is_ret(x), lambda x: x is i, failed)
            cx.ob(w is None, f, "what was allocated is given to the block", "create/blkeach", c)
    # the sum
    for c in cm:
        t, m = f.strip(c.ops[2]), f.strip(c.ops[3])
        ok = isinstance(t, Ins) and t.op == "phi" and any(isinstance(f.strip(o), Val) and f.strip(o).k == "c" for o in t.ops)
        cx.ob(ok, f, "the size asked for is a sum over the blocks", "create/total", c)
        if ok:
            steps = [o for o in t.ops if not (isinstance(f.strip(o), Val))]
            sizes = [i for i in f.ins() if V("size")(i)]
            als = [i for i in f.ins() if V("alignment")(i)]
            good = bool(steps)
            for o in steps:
                hit = None
                for s in sizes:
                    sa = lambda x, s=s: x is s or (isinstance(x, Ins) and x.op == "call" and V("size")(x) and same(f, x.ops[0], s.ops[0]))
                    aa = lambda x, s=s: isinstance(x, Ins) and x.op == "call" and V("alignment")(x) and same(f, x.ops[0], s.ops[0])
                    if atleast(f, o, t, sa, aa):
                        hit = s
                        break
                good = good and hit is not None
                if hit is not None:
                    each(cx, f, hit, hit.ops[0], VEC, "every block counts", "create/each")
            cx.ob(good, f, "each block adds its size behind the aligned end of the blocks before it", "create/sum", c)
        okm = isinstance(m, Ins) and m.op == "phi"
        cx.ob(okm, f, "the alignment asked for is a maximum over the blocks", "create/align", c)
        if okm:
            alp = lambda x: isinstance(x, Ins) and x.op == "call" and V("alignment")(x)
            for o in m.ops:
                if isinstance(f.strip(o), Val):
                    continue
                cx.ob(is_max(f, o, m, alp), f, "it is the largest alignment of a block", "create/max", c)
    f = cx.fn("addMemoryBlock")
    PUSH = call(r"^iox::vector::(push_back|emplace_back)$", (0, VEC))
    avail = nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg1.m_memory")
    rows = exp_rows(f, {"push": PUSH}, {"avail": avail, "pushed": truth_of(PUSH)})
    check_rows(cx, f, rows, lambda r: (r.n("push") == 1) == (r.lit.get("avail") is False) and (r.lit["ret"] == "ok") == (r.lit.get("pushed") is True), "a block is added iff there is room and the memory does not exist yet", "add")
    req_some(cx, f, [r for r in rows if r.lit["ret"] == "ok"], "blocks can be added", "add/some")
    for n, fld in (("baseAddress", "m_memory"), ("segmentId", "m_segmentId")):
        f = cx.fn(n)
        getter(cx, f, "m_memory", fld, n)
    f = cx.fn("isAvailable")
    rows = split_bool(f, bool_rows(f, {}, {"avail": nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg0.m_memory")}), {"avail": nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg0.m_memory")})
    check_rows(cx, f, rows, lambda r: returns_iff(r, "avail"), "available means there is memory", "isAvailable")
    f = cx.fn("size")
    for i in matching(f, is_ret):
        cx.ob(f.path(i.ops[0]) == "*arg0.m_size", f, "the size is the one kept", "size", i)


def getter(cx, f, cond, fld, tag):
    """returns the field iff cond is not null"""
    has = nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg1." + cond)
    EMPL = lambda i: call(r"^iox::optional::emplace$")(i) and f.path(i.ops[1]) == "arg1." + fld
    SOME = lambda i: (call(r"^iox::optional::emplace$", (0, r"^arg0$"))(i)) or (i.op == "store" and f.path(i.ops[1]) == "arg0.m_hasValue" and v_const(1)(f.strip(i.ops[0])))
    PUT = lambda i: EMPL(i) and f.path(i.ops[0]) == "arg0" or (i.op == "store" and f.path(i.ops[1]) == "arg0.m_data" and (f.path(i.ops[0]) == "*arg1." + fld or value_of(f, i.ops[0], EMPL)))
    rows = [r for r in table(f, {"put": PUT, "some": SOME}, {"has": has, "inner": opt_has(EMPL)}) if r.lit.get("inner") is not False]
    check_rows(cx, f, rows, lambda r: r.lit.get("has") is not None and (r.n("some") == 1) == r.lit["has"] and (r.n("put") == 1) == r.lit["has"], "what exists, and only that, is handed out", tag)


@P.rule("R2", "destruction ends the life of all blocks before the memory goes and forgets memory that is gone", min=8)
def r2(cx):
    V = Virt(cx)
    f = cx.fn("destroy")
    DES, DM, UNREG = V("destroy"), V("destroyMemory"), call(r"::unregisterPtr$")
    avail = nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and f.path(v.ops[0]) == "arg1.m_memory")
    gone = exp_ok(DM)

    def gone2(k, pol):
        t = gone(k, pol)
        if t is None and k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "load" and f.path(k[1].ops[0]) == "arg0.m_store.data.m_type_index" and isinstance(k[2], Val) and k[2].k == "c" and k[2].v in (0, 1):
            return pol if k[2].v == 0 else not pol
        return t
    gone2.stable = True
    NULL = store(r"^arg1\.m_memory$", isnull)
    ZERO = store(r"^arg1\.m_size$", v_const(0))
    rows = exp_rows(f, {"dm": DM, "unreg": UNREG, "null": NULL, "zero": ZERO}, {"avail": avail, "gone": gone2})
    check_rows(cx, f, rows, lambda r: r.lit.get("avail") is not None and (r.n("dm") == 1) == r.lit["avail"], "the memory is destroyed iff there is any", "destroy/when")
    check_rows(cx, f, rows, lambda r: r.lit.get("avail") is not False or (r.lit["ret"] == "err" and v_const(enumv(cx, "MEMORY_NOT_AVAILABLE"))(r.lit["val"])), "nothing to destroy is reported as such", "destroy/none")
    check_rows(cx, f, rows, lambda r: not r.n("dm") or (r.lit.get("gone") is not None and all((r.n(x) == 1) == r.lit["gone"] for x in ("unreg", "null", "zero"))), "the memory is unregistered and forgotten iff it is gone", "destroy/forget")
    for c in matching(f, DM):
        into = f.path(c.ops[0])
        cx.ob(into == "arg0" or any(MEMCPY.search(i.callee or "") and f.path(i.ops[0]) == "arg0" and f.root_of(i.ops[1]) is f.root_of(c.ops[0]) for i in f.calls()) or
              all(r.lit["ret"] == ("ok" if r.lit.get("gone") else "err") for r in rows if r.n("dm")) or
              any(store(EXP_TAG)(i) and value_of(f, i.ops[0], DM) for i in f.ins()), f, "the outcome is returned", "destroy/result", c)
        w = f.search(c, lambda i: DES(i))
        cx.ob(w is None, f, "no block is used after its memory is gone", "destroy/after", c)
    ds = matching(f, DES)
    req_some(cx, f, ds, "the blocks are destroyed", "destroy/blocks")
    for i in ds:
        each(cx, f, i, i.ops[0], VEC, "every block is destroyed", "destroy/each")
    for c in matching(f, UNREG):
        r = f.root_of(c.ops[0])
        ok = any(w.op == "store" and f.path(w.ops[0]) == "*arg1.m_segmentId" for w in f.writers(r)) if isinstance(r, Ins) and r.op == "alloca" else f.path(c.ops[0]) in ("arg1.m_segmentId", "*arg1.m_segmentId")
        cx.ob(ok, f, "the id unregistered is the one of the memory", "destroy/id", c)
    f = cx.fn("shm_destroyMemory")
    END = lambda i: call(r"^iox::PosixSharedMemoryObject::~")(i) and f.path(i.ops[0]) == "arg1.m_shmObject.m_data" or call(r"^iox::optional::(reset|destruct_value)$", (0, r"m_shmObject$"))(i)
    rows = exp_rows(f, {"end": END}, {"has": truth_of(load(r"^arg1\.m_shmObject\.m_hasValue$"))})
    check_rows(cx, f, rows, lambda r: r.lit["ret"] == "ok" and (r.n("end") == 1) == (r.lit.get("has") is not False), "the shared memory object goes", "shmdestroy")
    for f in cx.fns("shm_~PosixShmMemoryProvider"):
        DES2 = call(r"^iox::roudi::MemoryProvider::destroy$")
        END = call(r"^iox::PosixSharedMemoryObject::~|^iox::roudi::MemoryProvider::~")
        av = truth_of(call(r"::isAvailable$"))
        rows = table(f, {"d": DES2, "end": END}, {"avail": av})
        check_rows(cx, f, rows, lambda r: r.lit.get("avail") is False or (r.n("d") == 1 and r.ev.index("d") == 0), "a provider gives its memory back before it goes", "shmdtor")


@P.rule("R3", "blocks are told their memory once, after all memory exists", min=8)
def r3(cx):
    V = Virt(cx)
    f = cx.fn("announceMemoryAvailable")
    ON = V("onMemoryAvailable")
    told = truth_of(load(r"^arg0\.m_memoryAvailableAnnounced$"))
    SET = store(r"^arg0\.m_memoryAvailableAnnounced$", v_const(1))
    rows = table(f, {"on": ON, "set": SET}, {"told": told})
    check_rows(cx, f, rows, lambda r: r.lit.get("told") is not None and (r.lit["told"] is False or not r.n("on")) and (r.lit["told"] or r.n("set") == 1), "the blocks are told once", "announce/once")
    ons = matching(f, ON)
    req_some(cx, f, ons, "the blocks are told", "announce/some")
    for i in ons:
        each(cx, f, i, i.ops[0], r"^arg0\.m_memoryBlocks$", "every block is told", "announce/each")
        b = f.strip(i.ops[1])
        cx.ob(isinstance(b, Ins) and b.op == "load" and re.search(r"\.m_memory$", f.path(b.ops[0])) is not None and same(f, f.root_of(b.ops[0]), f.strip(i.ops[0])) and f.path(b.ops[0]) != "arg0.m_memory", f, "a block is told its own memory", "announce/own", i)
    f = cx.fn("createAndAnnounceMemory")
    VP = r"^arg1\.m_memoryProvider$"
    CR, AN = call(r"^iox::roudi::MemoryProvider::create$"), call(r"^iox::roudi::MemoryProvider::announceMemoryAvailable$")
    lits = {"empty": unchanging(vec_empty(VP)), "ok": exp_ok(CR)}
    rows = exp_rows(f, {"cr": CR, "an": AN}, lits)
    check_rows(cx, f, rows, lambda r: r.lit.get("empty") is not True or (r.lit["ret"] == "err" and not r.ev), "no provider is an error", "manager/empty")
    check_rows(cx, f, rows, lambda r: r.lit["ret"] != "ok" or r.lit.get("empty") is False, "success needs a provider", "manager/ok")
    for i in matching(f, CR):
        each(cx, f, i, i.ops[1], VP, "every provider is created", "manager/each", holds(exp_ok(CR), False))
        w = f.search(i, lambda x: CR(x) or AN(x) or (store(EXP_TAG)(x) and v_const(0)(f.strip(x.ops[0]))), None, holds(exp_ok(CR)))
        cx.ob(w is None, f, "a failed creation ends with an error and nothing is announced", "manager/failed", i)
    req_some(cx, f, matching(f, CR), "providers are created", "manager/some")
    req_some(cx, f, matching(f, AN), "providers announce", "manager/announces")
    for i in matching(f, AN):
        each(cx, f, i, i.ops[0], VP, "every provider announces", "manager/announceeach")
        w = f.search(i, CR)
        cx.ob(w is None, f, "announcement starts after all memory exists", "manager/order", i)
    f = cx.fn("addMemoryProvider")
    PUSH = call(r"^iox::vector::(push_back|emplace_back)$", (0, VP))
    rows = exp_rows(f, {"push": PUSH}, {"pushed": truth_of(PUSH)})
    check_rows(cx, f, rows, lambda r: r.n("push") == 1 and (r.lit["ret"] == "ok") == (r.lit.get("pushed") is True), "a provider is added iff there is room", "manager/add")


@P.rule("R4", "destruction reaches every provider and failures are reported", min=4)
def r4(cx):
    na = enumv(cx, "MEMORY_NOT_AVAILABLE")
    for rid, this in (("destroyMemory", "arg1"), ("~RouDiMemoryManager", "arg0")):
        for f in cx.fns(rid):
            D = call(r"^iox::roudi::MemoryProvider::destroy$")
            ds = matching(f, D)
            req_some(cx, f, ds, "providers are destroyed", rid + "/some")
            for i in ds:
                each(cx, f, i, i.ops[1], r"^%s\.m_memoryProvider$" % this, "every provider is destroyed", rid + "/each")
    f = cx.fn("destroyMemory")
    D = call(r"^iox::roudi::MemoryProvider::destroy$")

    def nothing(k, pol):
        if k[0] == "eq" and isinstance(k[2], Val) and k[2].k == "c" and k[2].v == na and value_of(f, k[1], D):
            return pol
        return None
    ok = exp_ok(D)

    PH, todo = set(), [i.ops[0] for i in f.ins() if store(EXP_TAG)(i)]
    while todo:
        v = f.strip(todo.pop())
        if isinstance(v, Ins) and v.op == "phi" and v.id not in PH:
            PH.add(v.id)
            todo += v.ops

    def step(st, i):
        if i.op == "phi" and i.id in PH:
            x = st.get(("phi", i.id))
            c = st.get(("c", x.id)) if isinstance(x, Ins) else x.v if isinstance(x, Val) and x.k == "c" else None
            st.pop(("phi", i.id), None)
            st[("c", i.id)] = c
        if D(i):
            if st.get("ok") is False and st.get("na") is False:
                st["bad"] = True
            st.pop("ok", None)
            st.pop("na", None)
        if i.op == "store" and re.search(EXP_TAG, f.path(i.ops[1])):
            v = f.strip(i.ops[0])
            if v_const(0, 1)(v):
                st["tag"] = v.v
            elif isinstance(v, Ins) and st.get(("c", v.id)) in (0, 1):
                st["tag"] = st["c", v.id]
        if i.op == "call" and MEMCPY.search(i.callee or "") and f.path(i.ops[0]) == "arg0":
            st["tag"] = "copied"
        return None

    def local(v):
        r = f.root_of(v)
        return isinstance(r, Ins) and r.op == "alloca"

    def edge(st, k, pol):
        if k[0] == "eq" and pol and k[1] is not None and k[2] is not None and any(local(x) and isinstance(f.root_of(y), Val) and f.root_of(y).k == "arg" for x, y in ((k[1], k[2]), (k[2], k[1]))):
            return False  # a local is not the result object
        t = ok(k, pol)
        if t is not None:
            if st.get("ok", t) is not t:
                return False
            st["ok"] = t
        t = nothing(k, pol)
        if t is not None:
            if st.get("na", t) is not t:
                return False
            st["na"] = t
        if k[0] == "eq" and isinstance(k[1], Ins) and v_const(0, 1)(k[2]) and st.get(("c", k[1].id)) in (0, 1) and (st["c", k[1].id] == k[2].v) is not pol:
            return False
        if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "load" and re.search(EXP_TAG, f.path(k[1].ops[0])) and v_const(0, 1)(k[2]) and st.get("tag") in (0, 1):
            if (st["tag"] == k[2].v) is not pol:
                return False
        return None
    n, some = 0, set()
    for r, st, tr in f.simulate({}, step, edge, phis=PH or False):
        n += 1
        bad = st.get("bad") or (st.get("ok") is False and st.get("na") is False)
        if st.get("tag") == "copied":
            some.add("copied")
            continue
        cx.ob((st.get("tag") == 1) == bool(bad), f, "an error is returned iff some provider failed to give up existing memory", "destroyMemory/result", r)
        some.add(st.get("tag"))
    req_some(cx, f, [1] * n, "some outcome", "destroyMemory/rows")
    cx.ob(1 in some or "copied" in some, f, "a failing provider is an error", "destroyMemory/err")


@P.rule("R5", "a block's object is built once in memory of its size and alignment and destroyed once", min=40)
def r5(cx):
    V = Virt(cx)
    T = {"coll": ("m_memoryManager", r"^iox::mepoo::MemoryManager::", "requiredFullMemorySize"), "seg": ("m_segmentManager", r"^iox::mepoo::SegmentManager::", "requiredManagementMemorySize"),
         "port": ("m_portPoolData", r"^iox::roudi::PortPoolData::", None), "g": ("m_value", r"^vd::T::", None)}
    const = {}
    for g in T:
        for w in ("sizeof", "alignof"):
            f = cx.fn("%s_%s" % (w, g))
            v = f.strip(matching(f, is_ret)[0].ops[0])
            const[w, g] = v.v
    for g, (fld, cls, req) in T.items():
        CT = lambda i, cls=cls: i.op == "call" and i.callee and re.search(cls + r"(\w+)$", i.callee) is not None and i.callee.split("::")[-1] == i.callee.split("::")[-2]
        DT = call(cls + "~")
        need = const["sizeof", g]
        f = cx.fn(g + "_size")
        for r in matching(f, is_ret):
            a = f.affine(r.ops[0])
            tot, got = a.get(1, 0), req is None
            for t, c in a.items():
                i = next((x for x in f.ins() if t != 1 and t[0] == "v" and x.id == t[1]), None)
                if i is not None and call(r"^iox::align$")(i) and isinstance(f.strip(i.ops[0]), Val):
                    tot += f.strip(i.ops[0]).v * c
                elif i is not None and req and call(r"::%s$" % req)(i) and c >= 1:
                    got = re.search(r"^arg0\.m_\w*[cC]onfig$", f.path(i.ops[0])) is not None
                elif t != 1 and not 0 < c < 1 << 63:
                    tot = -1 << 64
            cx.ob(tot >= need and got, f, "the size covers the object%s" % (" and what it manages" if req else ""), g + "/size", r)
        f = cx.fn(g + "_alignment")
        for r in matching(f, is_ret):
            v = f.strip(r.ops[0])
            ok = isinstance(v, Val) and v.k == "c" and v.v >= const["alignof", g] and v.v % const["alignof", g] == 0
            if isinstance(v, Ins):
                c = v if v.op == "call" else f.strip(v.ops[0]) if v.op == "load" else None
                if isinstance(c, Ins) and c.op == "call" and re.search(r"maxVal$|::max$|umax", c.callee or ""):
                    for o in c.ops:
                        b = f.root_of(o)
                        if any(w.op == "store" and v_const(const["alignof", g])(f.strip(w.ops[0])) for w in (f.writers(b) if isinstance(b, Ins) and b.op == "alloca" else [])) or v_const(const["alignof", g])(f.strip(o)):
                            ok = True
            cx.ob(ok, f, "the alignment suits the object", g + "/alignment", r)
        f = cx.fn(g + "_get" if g != "g" else "g_value")
        getter(cx, f, fld, fld, g + "/get")
        for rid in [g + "_destroy"] + ([g + "_dtor"] if g != "g" else []):
            for f in cx.fns(rid):
                has = nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg0." + fld)
                D = lambda i: DT(i) and f.path(i.ops[0]) == "*arg0." + fld
                rows = table(f, {"d": D, "any": DT, "null": store(r"^arg0\.%s$" % fld, isnull)}, {"has": has})
                check_rows(cx, f, rows, lambda r: r.lit.get("has") is not None and (r.n("d") == 1) == r.lit["has"] and r.n("any") == r.n("d") and (not r.lit["has"] or rid.endswith("dtor") or r.n("null") == 1), "an existing object is destroyed, once, and forgotten", rid)
        # construction
        f = cx.fn(g + "_onMemoryAvailable" if g != "g" else "g_emplace")
        this = "arg0" if g != "g" else "arg1"
        cts = matching(f, CT)
        req_some(cx, f, cts, "the object is built", g + "/built")
        SETF = store(r"^%s\.%s$" % (this, fld))
        MEMO = call(r"^iox::roudi::MemoryBlock::memory$")
        if g == "g":
            rows = opt_rows(f, {"ct": CT, "dt": DT, "set": lambda i: SETF(i) and not isnull(f.strip(i.ops[0]))}, {"has": nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg1.m_value" and v.blk == f.entry), "mem": opt_has(MEMO)})
            check_rows(cx, f, rows, lambda r: (r.n("ct") == 1) == (r.lit.get("mem") is True) and r.n("ct") == r.n("set"), "the object is built iff there is memory", "g/when")
            check_rows(cx, f, rows, lambda r: r.n("dt") == 0 or not r.n("ct") or r.ev.index("dt") < r.ev.index("ct"), "the object before it is gone by then", "g/replace")
            D = lambda i: DT(i) and f.path(i.ops[0]) == "*arg1.m_value"
            for c in cts:
                w = f.search(None, lambda i: i is c, D, holds(nonnull(lambda v: isinstance(v, Ins) and v.op == "load" and v.fn.path(v.ops[0]) == "arg1.m_value"), False))
                cx.ob(w is None, f, "an object is not built over a living one", "g/over", c)
        ALLOC, BUMP = call(r"^iox::BumpAllocator::allocate$"), call(r"^iox::BumpAllocator::BumpAllocator$")
        for c in cts:
            o = c.ops[0]
            if g in ("coll", "seg"):
                ok = value_of(f, o, ALLOC)
                for a in matching(f, ALLOC):
                    s, al = f.strip(a.ops[2]), f.strip(a.ops[3])
                    cx.ob(isinstance(s, Val) and s.v >= need and isinstance(al, Val) and al.v % const["alignof", g] == 0 and al.v > 0, f, "the object gets memory of its size and alignment", g + "/alloc", a)
                for b in matching(f, BUMP):
                    cx.ob(f.path(b.ops[1]) in ("arg1", "*arg1", "arg1.value"), f, "the allocator works on the memory of the block", g + "/mem", b)
                    s = f.strip(b.ops[2])
                    cx.ob(isinstance(s, Ins) and s.op == "call" and (re.search(r"MemoryBlock::size$", s.callee or "") is not None or (not s.callee and slot(s) == V.off["size"])), f, "and on no more than its size", g + "/bytes", b)
                bump = {f.root_of(b.ops[0]).id for b in matching(f, BUMP)}
                cx.ob(len(bump) == 1, f, "there is one allocator", g + "/one", c)
                for k in f.calls():
                    if re.search(cls, k.callee or "") and not DT(k):
                        for x in k.ops[1:]:
                            r = f.root_of(x)
                            if isinstance(r, Ins) and r.op == "alloca" and "BumpAllocator" in f.path(x):
                                cx.ob(r.id in bump, f, "what the object manages comes from the same allocator", g + "/same", k)
            elif g == "port":
                ok = f.path(o) in ("arg1", "*arg1")
            else:
                ok = value_of(f, o, MEMO)
            cx.ob(ok, f, "the object is built in the memory of the block", g + "/place", c)
            for s in matching(f, SETF):
                if not isnull(f.strip(s.ops[0])):
                    cx.ob(same(f, s.ops[0], o), f, "the block refers to the object built", g + "/refers", s)
            req_after(cx, f, c, SETF, "the object is not lost", g + "/kept")
            w = f.search(c, CT)
            cx.ob(w is None, f, "one object is built", g + "/single", c)
            if g == "coll":
                conf = call(cls + "configureMemoryManager$")
                req_after(cx, f, c, conf, "the pools are made", g + "/pools")
                for k in matching(f, conf):
                    cx.ob(same(f, k.ops[0], o) or f.path(k.ops[0]) == "*arg0.m_memoryManager", f, "in the object built", g + "/pools/where", k)
                    cx.ob(f.path(k.ops[1]) == "arg0.m_memPoolConfig", f, "as configured", g + "/pools/which", k)
                    w = f.search(k, conf)
                    cx.ob(w is None, f, "once", g + "/pools/once", k)


@P.rule("R6", "management memory is page aligned shared memory of the size asked for, and goes before RouDi's lock", min=8)
def r6(cx):
    f = cx.fn("shm_createMemory")
    B = r"^iox::PosixSharedMemoryObjectBuilder::"
    CR = call(B + "create$")
    PS = call(r"^iox::detail::pageSize$")

    def big(k, pol):
        if k[0] == "ult" and isinstance(f.strip(k[1]), Ins) and PS(f.strip(k[1])) and f.strip(k[2]) == Val("arg", 3):
            return pol
        if k[0] == "ult" and f.strip(k[1]) == Val("arg", 3) and isinstance(f.strip(k[2]), Ins) and PS(f.strip(k[2])):
            return False if pol else None
        return None
    KEEP = call(r"^iox::optional::(emplace|operator=)$", (0, r"^arg1\.m_shmObject$"))
    BASE = call(r"^iox::PosixSharedMemoryObject::getBaseAddress$")
    null = nonnull(lambda v: isinstance(v, Ins) and v.op == "call" and BASE(v))
    rows = exp_rows(f, {"cr": CR, "keep": KEEP}, {"big": big, "made": exp_ok(CR), "base": null})
    check_rows(cx, f, rows, lambda r: r.lit.get("big") is not None and (r.n("cr") == 1) == (not r.lit["big"]), "memory is created iff pages are aligned enough", "shm/page")
    check_rows(cx, f, rows, lambda r: r.lit.get("big") is not True or r.lit["ret"] == "err", "too large an alignment is an error", "shm/pageerr")
    for i in matching(f, KEEP):
        req_guard(cx, f, i, holds(exp_ok(CR)), "only an object that was created is kept", "shm/keep")
    check_rows(cx, f, rows, lambda r: r.lit["ret"] == "err" or (r.n("keep") == 1 and r.lit.get("base") is True and isinstance(r.lit["val"], Ins) and BASE(r.lit["val"])), "success hands out the base address of the object kept", "shm/ok")
    req_some(cx, f, [r for r in rows if r.lit["ret"] == "ok"], "some success", "shm/some")
    for n, what in (("memorySizeInBytes", "arg2"), ("accessMode", "arg1.m_accessMode"), ("openMode", "arg1.m_openMode")):
        l = matching(f, call(B + n + "$"))
        req_some(cx, f, l, "%s is set" % n, "shm/" + n)
        for i in l:
            r = f.root_of(i.ops[1])
            ok = f.path(i.ops[1]).lstrip("*") == what or any(w.op == "store" and f.path(w.ops[0]).lstrip("*") == what for w in (f.writers(r) if isinstance(r, Ins) and r.op == "alloca" else []))
            cx.ob(ok, f, "%s is the one asked for" % n, "shm/%s/val" % n, i)
    f = cx.fn("drop")
    LOCK, MGR = call(r"^iox::FileLock::~"), call(r"^iox::roudi::RouDiMemoryManager::~")
    REST = call(r"^iox::roudi::(PosixShmMemoryProvider|\w+MemoryBlock)::~")
    req_some(cx, f, matching(f, LOCK), "the lock is released", "drop/lock")
    for i in matching(f, LOCK):
        w = f.search(i, anyof(MGR, REST))
        cx.ob(w is None, f, "RouDi's lock is released after the memory is gone", "drop/last", i)
    rest = matching(f, REST)
    req_some(cx, f, rest, "blocks and provider go", "drop/rest")
    for i in rest:
        req_before(cx, f, i, MGR, "the memory is destroyed while its blocks and provider exist", "drop/first")


@P.rule("R7", "sizes of the management memory are computed in full width", min=20)
def width(cx):
    C, F = r"BumpAllocator::(BumpAllocator|allocate)$|::registerPtr|memorySizeInBytes$", r"\.m_(size|length|memorySizeInBytes)$"
    W = "no bits of a size of the management memory are dropped"
    for n in ("create", "announceMemoryAvailable", "coll_onMemoryAvailable", "seg_onMemoryAvailable", "port_onMemoryAvailable", "shm_createMemory"):
        for f in cx.fns(n):
            wide_sinks(cx, f, C, F, W, n)
    for n in ("size", "coll_size", "seg_size", "port_size", "g_size", "sgm_required", "sgm_requiredChunk"):
        for f in cx.fns(n):
            for r in f.rets():
                wide(cx, f, r.ops[0], W, n, r)


@P.rule("R8", "the segment manager reserves what each of its segments needs", min=4)
def segments(cx):
    for n, rx in (("sgm_required", r"MemoryManager::requiredManagementMemorySize$"), ("sgm_requiredChunk", r"MemoryManager::requiredChunkMemorySize$")):
        f = cx.fn(n)
        cs = f.calls(rx)
        req_some(cx, f, cs, "the need of a segment is asked for", n)
        for r in f.rets():
            for c in cs:
                # the result is a running sum that every call's result is added to
                adds = [i for i in f.ins() if i.op == "add" and any(f.strip(o) is c for o in i.ops)]
                cx.ob(any(f.derives(r.ops[0], lambda x, a=a: x is a) and any(f.derives(o, lambda x, a=a: x is a) for o in a.ops) for a in adds), f,
                      "the need of every segment is added to the sum that is returned", n + "/sum", c)
