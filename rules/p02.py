from engine.core import Prop
from rules.lib import *

P = Prop("P02")
P.explain = """
Path rules on the flow graphs of the memory pool and memory manager: a chunk address is derived from the index that was
taken from the free list, every index given back was validated (lower bound, upper bound, chunk boundary), a failed give-
back is fatal, the used counter follows every successful take/give exactly once, a request is only served by a pool whose
chunks are large enough, a chunk and its management record are taken and returned together and in the safe order.  The set-up is followed from the configuration to the pools: the memory of
a segment is as large as required, registered and handed to the pools whole, each configured pool is made, the start-up
allocator never gives out overlapping memory, and no size, offset or address loses bits on the way (narrowing casts and
products formed in fewer than 64 bits in the slices of all of them)."""
M = "iceoryx_posh/source/mepoo/"
P.group("mp", [M + "mem_pool.cpp", M + "memory_manager.cpp", M + "chunk_management.cpp"],
        opaque=[r"^iox::concurrent::MpmcLoFFLi::", r"^iox::mepoo::MemPool::(getChunk|freeChunk|getChunkSize|MemPool)$",
                r"^iox::mepoo::ChunkHeader::ChunkHeader$", r"^iox::mepoo::ChunkSettings::",
                r"ChunkManagement::ChunkManagement$", r"BumpAllocator::",
                r"^iox::mepoo::SharedChunk::(SharedChunk|~SharedChunk)"])
MP = "iox::mepoo::MemPool::"
MM = "iox::mepoo::MemoryManager::"
P.root("mp", "mp_get", MP + "getChunk")
P.root("mp", "mp_free", MP + "freeChunk")
P.root("mp", "mp_ctor", MP + "MemPool")
P.root("mp", "mm_get", MM + "getChunk")
P.root("mp", "mm_free", MM + "freeChunk")
P.root("mp", "mm_add", MM + "addMemPool")
P.root("mp", "mm_gen", MM + "generateChunkManagementPool")
P.root("mp", "mm_reqc", MM + "requiredChunkMemorySize")
P.root("mp", "mm_reqm", MM + "requiredManagementMemorySize")
P.root("mp", "cm_ctor", "iox::mepoo::ChunkManagement::ChunkManagement")

POP = call(r"MpmcLoFFLi::pop$")
PUSH = call(r"MpmcLoFFLi::push$")


@P.rule("R1", "a pool hands out base + index * chunk size for an index it has just taken, null otherwise, and counts it", min=4)
def get(cx):
    f = cx.fn("mp_get")
    rows = table(f, {"pop": POP, "add": rmw(r"arg0\.m_usedChunks", "add", 1), "other": lambda i: i.op in ("store", "atomicrmw") and "m_usedChunks" in f.addr(i) and not rmw("m_usedChunks", "add", 1)(i)},
                 {"ok": truth_call(r"MpmcLoFFLi::pop$")})
    check_rows(cx, f, rows, lambda r: r.lit.get("ok") is not None and r.n("pop") == 1, "the free list decides every outcome", "decide")
    check_rows(cx, f, rows, lambda r: r.n("add") == (1 if r.lit.get("ok") else 0) and r.n("other") == 0, "used counter grows by one exactly when an index was taken", "count")

    def val(r):
        v = f.ret_value(r.ret, r.st)
        if not r.lit.get("ok"):
            return isnull(v)
        if not isinstance(v, Ins):
            return False
        pops = f.calls(r"MpmcLoFFLi::pop$")
        af = f.affine(v)
        base = [a for a in af if isinstance(a, tuple) and a[0] == "ptr" and "m_rawMemory" in a[1]]
        mul = [a for a in af if isinstance(a, tuple) and a[0] == "mul" and "m_chunkSize" in a[1] + a[2]]
        idx = f.derives(v, lambda x: isinstance(x, Ins) and x in pops)
        return len(af) == 2 and len(base) == 1 and len(mul) == 1 and idx and all(af[a] == 1 for a in af)
    check_rows(cx, f, rows, val, "the address handed out is base + (taken index) * chunk size; null when nothing was taken", "address")
    # the index is used only after a successful take
    for l in f.loads():
        if isinstance(f.root_of(l.ops[0]), Ins) and f.root_of(l.ops[0]).op == "alloca" and any(w.op == "call" and POP(w) for w in f.writers(f.root_of(l.ops[0]))):
            req_guard(cx, f, l, holds(truth_call(r"MpmcLoFFLi::pop$")), "the taken index is only used after a successful take", "use")


@P.rule("R2", "only addresses of chunks of this pool are given back, exactly one index each, and a double free is fatal", min=6)
def free(cx):
    f = cx.fn("mp_free")
    pushes = matching(f, PUSH)
    rows = table(f, {"push": PUSH, "sub": rmw(r"arg0\.m_usedChunks", "sub", 1), "add": rmw(r"arg0\.m_usedChunks", "add")},
                 {"ok": truth_call(r"MpmcLoFFLi::push$")})
    check_rows(cx, f, rows, lambda r: r.n("push") == 1, "every return has given exactly one index back", "once")
    check_rows(cx, f, rows, lambda r: r.lit.get("ok") is True, "a failed give-back (double free) never returns silently", "double-free")
    check_rows(cx, f, rows, lambda r: r.n("sub") == 1 and r.n("add") == 0, "used counter drops by one per chunk given back", "count")
    base = lambda v: f.path(v).endswith("m_rawMemory->")
    chunk = v_arg(1)
    size = lambda v: isinstance(v, Ins) and v.op == "load" and f.path(v).endswith("m_chunkSize")

    def off(v):
        a = f.affine(v)
        return a == {("arg", 1): 1, ("ptr", "arg0.m_rawMemory->"): (1 << 64) - 1}

    def lower(k, pol):
        # not (chunk < base), or (offset as signed >= 0)
        return k[0] == "ult" and ((chunk(k[1]) and base(k[2]) and not pol) or False) \
            or (k[0] == "ult" and base(k[1]) and chunk(k[2]) and pol)

    def last(v):
        # base + size * (n - 1)
        a = f.affine(v)
        m = [x for x in a if isinstance(x, tuple) and x[0] == "mul"]
        return len(m) == 1 and "m_chunkSize" in repr(m) and "m_numberOfChunks" in repr(m) and "18446744073709551615" in repr(m) or \
            (len(m) == 1 and "m_numberOfChunks" in repr(m) and "m_chunkSize" in repr(m) and any(isinstance(x, tuple) and x[0] == "load" and "m_chunkSize" in x[1] and c == (1 << 64) - 1 for x, c in a.items()))

    def end(v):
        a = f.affine(v)
        m = [x for x in a if isinstance(x, tuple) and x[0] == "mul"]
        return len(m) == 1 and "m_numberOfChunks" in repr(m) and "m_chunkSize" in repr(m) and not last(v)

    def upper(k, pol):
        # not (last < chunk)   or   chunk < end   or  index < number of chunks
        if k[0] != "ult":
            return False
        if last(k[1]) and (chunk(k[2]) or off(k[2])) and not pol:
            return True
        if (chunk(k[1]) or off(k[1])) and end(k[2]) and pol:
            return True
        return isinstance(k[1], Ins) and k[1].op == "udiv" and f.path(k[2]).endswith("m_numberOfChunks") and pol

    def bound(k, pol):
        return k[0] == "eq" and pol and isinstance(k[1], Ins) and k[1].op == "urem" and off(k[1].ops[0]) and size(f.strip(k[1].ops[1])) and v_const(0)(k[2])
    for e in pushes:
        req_guard(cx, f, e, lower, "an address below the pool is never given back", "lower")
        req_guard(cx, f, e, upper, "an address behind the last chunk is never given back", "upper")
        req_guard(cx, f, e, bound, "an address that is not a chunk boundary is never given back", "boundary")
        idx = f.strip(e.ops[1])
        cx.ob(isinstance(idx, Ins) and idx.op == "udiv" and off(idx.ops[0]) and size(f.strip(idx.ops[1])), f,
              "the index given back is (address - base) / chunk size", "index", e)


@P.rule("R3", "a request is served only from a pool with large enough chunks and the chunk is bound to that pool", min=7)
def mget(cx):
    f = cx.fn("mm_get")
    gets = f.calls(r"MemPool::getChunk$")
    mgmt = [g for g in gets if f.mentions(g.ops[0], r"m_chunkManagementPool", through_calls=True)]
    pay = [g for g in gets if g not in mgmt]
    req_some(cx, f, pay, "chunks are taken from the pools", "pay")
    req_some(cx, f, mgmt, "management records are taken from the management pool", "mgmt")
    req = v_reads(f, r"ChunkSettings::requiredChunkSize$")
    for g in pay:
        pool = f.strip(g.ops[0])
        sz = lambda v: isinstance(v, Ins) and ((v.op == "call" and v.callee.endswith("getChunkSize") and f.strip(v.ops[0]) is pool)
                                               or f.path(v).endswith("m_chunkSize"))
        fit = lambda k, pol: (k[0] == "ult" and sz(k[1]) and req(k[2]) and not pol) or (k[0] == "ult" and req(k[1]) and sz(k[2]) and pol)
        req_guard(cx, f, g, fit, "the pool asked for a chunk has chunks of at least the required size", "fit")
    hdr = f.calls(r"ChunkHeader::ChunkHeader$")
    req_some(cx, f, hdr, "a chunk header is placed in the chunk", "hdr")
    payres = lambda v: f.strip(v) in pay or (isinstance(f.strip(v), Ins) and f.strip(v).op == "phi" and f.derives(v, lambda x: x in pay))
    for h in hdr:
        req_guard(cx, f, h, either(holds(nonnull(payres))), "a chunk header is only placed in a chunk that was really obtained", "nonnull")
        cx.ob(payres(h.ops[0]), f, "the header is placed at the obtained chunk", "place", h)
        cx.ob(f.mentions(h.ops[1], r"MemPool::getChunkSize$|\.m_chunkSize$") and not f.mentions(h.ops[1], r"requiredChunkSize"), f, "the header records the size of the pool's chunks", "size", h)
    cms = f.calls(r"ChunkManagement::ChunkManagement$")
    req_some(cx, f, cms, "a management record is constructed", "cm")
    for c in cms:
        cx.ob(f.strip(c.ops[0]) in mgmt, f, "the management record lives in the management pool", "cm-place", c)
        cx.ob(f.derives(c.ops[1], lambda x: x in pay or x in hdr), f, "the record refers to the obtained chunk", "cm-hdr", c)
        pools = {f.strip(g.ops[0]) for g in pay}
        cx.ob(f.derives(c.ops[2], lambda x: x in pools) and not f.mentions(c.ops[2], "m_chunkManagementPool", through_calls=True), f, "the record refers to the pool the chunk came from", "cm-pool", c)
        cx.ob(f.mentions(c.ops[3], "m_chunkManagementPool", through_calls=True), f, "the record refers to the management pool", "cm-mgmtpool", c)
    # success result <=> chunk + record
    ok = store(r"^arg0\..*m_type_index$", isconst(0))
    errs = store(r"^arg0\..*m_type_index$", isconst(1))
    rows = table(f, {"ok": ok, "err": errs, "cm": call(r"ChunkManagement::ChunkManagement$"), "pay": lambda i: i in pay, "mg": lambda i: i in mgmt},
                 {"got": nonnull(payres)})
    check_rows(cx, f, rows, lambda r: (r.n("ok") == 1) != (r.n("err") == 1), "every path yields a result", "result")
    check_rows(cx, f, rows, lambda r: r.n("ok") == 0 or (r.n("cm") == 1 and r.n("pay") == 1 and r.n("mg") == 1), "success only with one chunk and one management record", "ok")
    check_rows(cx, f, rows, lambda r: not (r.lit.get("got") and r.n("err")), "an obtained chunk is never dropped on an error path", "leak")


@P.rule("R4", "a chunk and its record are given back exactly once, the record first, with nothing read from the record after that", min=5)
def mfree(cx):
    f = cx.fn("mm_free")
    fr = f.calls(r"MemPool::freeChunk$")
    rec = [c for c in fr if v_arg(0)(f.strip(c.ops[1]))]
    pay = [c for c in fr if c not in rec]
    cx.ob(len(rec) >= 1 and all(f.mentions(c.ops[0], "m_chunkManagementPool", through_calls=True) for c in rec), f,
          "the record is given back to the management pool", "rec")
    cx.ob(len(pay) >= 1 and all(f.mentions(c.ops[0], r"\.m_mempool", through_calls=True) and f.mentions(c.ops[1], r"m_chunkHeader", through_calls=True) for c in pay), f,
          "the chunk is given back to the pool it came from", "pay")
    rows = table(f, {"rec": f._pset(rec), "pay": f._pset(pay)})
    check_rows(cx, f, rows, lambda r: r.n("rec") == 1 and r.n("pay") == 1, "both are given back exactly once on every path", "both")
    check_rows(cx, f, rows, lambda r: r.before("rec", "pay"), "the record is available again before the chunk is (a fresh chunk always finds a record)", "order")
    # no access to the record after it has been given back
    acc = [i for i in f.ins() if (i.op == "load" and v_arg(0)(f.root_of(i.ops[0]))) or
           (i.op == "call" and i.callee and "llvm.memcpy" in i.callee and v_arg(0)(f.root_of(i.ops[1]))) or
           (i.op == "call" and i.callee and "RelativePointer" in i.callee and i.ops and v_arg(0)(f.root_of(i.ops[0])))]
    for c in rec:
        w = f.search(c, f._pset(acc))
        cx.ob(w is None, f, "the record is not read after it has been given back", "uaf", c, w)


@P.rule("R5", "pool set-up: sizes multiplied without overflow, strictly increasing chunk sizes, one record per chunk", min=8)
def setup(cx):
    f = cx.fn("mp_ctor")
    al = f.calls(r"BumpAllocator::allocate$")
    raw = [a for a in al if "mul" in repr(f.affine(a.ops[2]))]
    idx = [a for a in al if f.mentions(a.ops[2], r"requiredIndexMemorySize")]
    cx.ob(len(raw) == 1, f, "the pool allocates (number of chunks * chunk size) bytes", "raw")
    cx.ob(len(idx) == 1 and f.mentions(idx[0].ops[2], r"MpmcLoFFLi::requiredIndexMemorySize", through_calls=True), f, "the pool allocates the free list", "idx")
    n = lambda v: f.mentions(v, r"m_numberOfChunks") or f.derives(v, lambda x: v_arg(2)(x))
    s = lambda v: f.mentions(v, r"m_chunkSize") or f.derives(v, lambda x: v_arg(1)(x))
    for a in raw:
        nov = lambda k, pol: k[0] == "ult" and not pol and isinstance(k[1], Ins) and k[1].op == "udiv" and n(k[1].ops[1]) and s(k[2]) or \
            (k[0] == "ult" and not pol and isinstance(k[1], Ins) and k[1].op == "udiv" and s(k[1].ops[1]) and n(k[2]))
        req_guard(cx, f, a, nov, "the size product is checked for overflow before the allocation", "overflow")
        m = f.strip(a.ops[2])
        cx.ob(isinstance(m, Ins) and m.op == "mul" and ((n(m.ops[0]) and s(m.ops[1])) or (n(m.ops[1]) and s(m.ops[0]))), f, "the allocation covers all chunks", "cover", a)
    ini = f.calls(r"MpmcLoFFLi::init$")
    cx.ob(len(ini) == 1 and n(ini[0].ops[2]), f, "the free list covers all chunks of the pool", "init")
    for i in ini:
        cx.ob(f.derives(i.ops[1], lambda x: x in idx), f, "the free list uses the memory allocated for it", "init-mem", i)
    mult = lambda k, pol: k[0] == "eq" and pol and isinstance(k[1], Ins) and k[1].op in ("urem", "and") and v_const(0)(k[2])
    for i in ini:
        req_guard(cx, f, i, mult, "the chunk size is a multiple of the chunk alignment", "align")
    f = cx.fn("mm_add")
    em = f.calls(r"vector::emplace_back$")
    req_some(cx, f, em, "a pool is added", "add")
    for e in em:
        req_guard(cx, f, e, lambda k, pol: k[0] == "b" and not pol and f.path(k[1]).endswith("m_denyAddMemPool") or (k[0] == "eq" and f.path(k[1]).endswith("m_denyAddMemPool") and (v_const(0)(k[2]) == pol)),
                  "no pool is added once the records have been created", "deny")
        sz = lambda v: f.mentions(v, r"MemPool::getChunkSize$|m_chunkSize$")
        order = lambda k, pol: (k[0] == "ult" and sz(k[1]) and not sz(k[2]) and pol) or (k[0] == "eq" and pol and f.mentions(k[1], r"vector::size$") and v_const(0)(k[2])) \
            or (k[0] == "b" and pol and f.mentions(k[1], r"vector::empty$"))
        req_guard(cx, f, e, order, "a further pool has strictly larger chunks than the one before", "increasing")
        tot = [i for i in f.stores(r"m_totalNumberOfChunks$")]
        cx.ob(f.search(None, is_ret, f._pset(tot)) is None, f, "every added pool is counted in the total number of chunks", "total", e)
        for t in tot:
            a = f.affine(t.ops[0])
            cx.ob(a.get(("load", "arg0.m_totalNumberOfChunks")) == 1 and len(a) == 2, f, "the total grows by the pool's number of chunks", "total-add", t)
    f = cx.fn("mm_gen")
    em = f.calls(r"vector::emplace_back$")
    cx.ob(len(em) == 1 and f.mentions(em[0].ops[2], r"m_totalNumberOfChunks"), f, "there is one management record per chunk", "records")
    on_all_returns(cx, f, store(r"m_denyAddMemPool$", isconst(1)), "creating the records closes the set of pools", "close")


@P.rule("R6", "the memory reserved for pools covers what the pools allocate", min=4)
def reserve(cx):
    f = cx.fn("mm_reqc")
    muls = [i for i in f.ins() if i.op == "mul"]
    hs = [m for m in muls if f.mentions(m, r"m_chunkCount") and f.mentions(m, r"\.m_size$")]
    cx.ob(len(hs) == 1 and all(f.derives(r.ops[0], lambda x: x is hs[0]) for r in f.rets()), f, "reserved payload memory sums count * chunk size over all pools", "payload")
    for m in hs:
        side = [o for o in m.ops if f.mentions(o, r"\.m_size$")][0]
        cx.ob(f.affine(side).get(1, 0) > 0, f, "the reserved size per chunk includes the chunk header", "header", m)
    f = cx.fn("mm_reqm")
    ri = f.calls(r"requiredIndexMemorySize$")
    cx.ob(len(ri) == 2 and all(any(f.derives(r.ops[0], lambda x, c=c: x is c) for r in f.rets()) for c in ri), f, "reserved management memory covers every pool's free list and the record pool's", "lists")
    muls = [i for i in f.ins() if i.op == "mul" and not f.mentions(i, "requiredIndexMemorySize")]
    cx.ob(len(muls) >= 1 and any(f.derives(r.ops[0], lambda x: x in muls) for r in f.rets()), f, "reserved management memory covers one record per chunk", "records")


@P.rule("R7", "a management record keeps chunk, pool and record pool it was created with", min=5)
def record(cx):
    f = cx.fn("cm_ctor")
    for fld, arg in (("m_chunkHeader", 1), ("m_mempool", 2), ("m_chunkManagementPool", 3)):
        w = [c for c in f.calls(r"RelativePointer::(RelativePointer|operator=)$") if f.path(c.ops[0]).endswith("." + fld)]
        cx.ob(len(w) == 1 and f.derives(w[0].ops[1], lambda x: v_arg(arg)(x)), f, "%s is initialised from the matching argument" % fld, fld)
    rc = [i for i in f.ins() if i.op == "store" and re.search(r"^arg0\.m_referenceCounter", f.addr(i))]
    cx.ob(bool(rc) and all(v_const(1)(f.strip(i.ops[0])) for i in rc), f, "a record starts with one owner", "first-owner")
    f = cx.fn("mp_ctor")
    uc = [i for i in f.ins() if i.op == "store" and re.search(r"^arg0\.m_usedChunks", f.addr(i))]
    cx.ob(bool(uc) and all(v_const(0)(f.strip(i.ops[0])) for i in uc), f, "a pool starts with no chunk in use", "unused")


@P.rule("R8", "sizes, offsets and addresses are computed in full width: no bits of a size beyond 4 GiB are dropped", min=8)
def width(cx):
    f = cx.fn("mp_get")
    for r in f.rets():
        wide(cx, f, r.ops[0], "the address handed out is computed in 64 bits", "address", r)
    f = cx.fn("mp_free")
    for e in matching(f, PUSH):
        i = f.strip(e.ops[1])
        for o in (i.ops if isinstance(i, Ins) and i.op == "udiv" else ()):
            wide(cx, f, o, "the offset of a chunk given back is computed in 64 bits", "offset", e)
    for i in f.ins():
        if i.op == "urem":
            wide(cx, f, i.ops[0], "the offset tested for a chunk boundary has 64 bits", "boundary", i)
        elif i.op == "icmp" and any(v_arg(1)(f.strip(o)) for o in i.ops):
            for o in i.ops:
                wide(cx, f, o, "the bounds of the pool are computed in 64 bits", "bounds", i)
    f = cx.fn("mp_ctor")
    for a in f.calls(r"BumpAllocator::allocate$"):
        wide(cx, f, a.ops[2], "the size of the pool's memory is computed in 64 bits", "alloc", a)
    for i in f.stores(r"^arg0\.m_chunkSize$"):
        wide(cx, f, i.ops[0], "the pool stores its chunk size unabridged", "chunk-size", i)
    for i in f.stores(r"^arg0\.m_numberOfChunks$"):
        wide(cx, f, i.ops[0], "the pool stores its number of chunks unabridged", "chunk-count", i)
    f = cx.fn("mm_get")
    req = [c for c in f.calls(r"ChunkSettings::requiredChunkSize$")]
    for i in f.ins():
        if i.op == "icmp" and any(f.derives(o, lambda x: x in req) for o in i.ops):
            for o in i.ops:
                wide(cx, f, o, "the required and the available size are compared in 64 bits", "fit", i)
    for h in f.calls(r"ChunkHeader::ChunkHeader$"):
        wide(cx, f, h.ops[1], "the header is told the chunk size unabridged", "header", h)
    for n in ("mm_reqc", "mm_reqm"):
        f = cx.fn(n)
        for r in f.rets():
            wide(cx, f, r.ops[0], "the memory to reserve is computed in 64 bits", "reserve", r)
    f = cx.fn("mm_add")
    for e in f.calls(r"vector::emplace_back$"):
        wide(cx, f, e.ops[1], "a pool is created with the unabridged chunk size", "add", e)
        wide(cx, f, e.ops[2], "a pool is created with the unabridged number of chunks", "add-count", e)


SEG = "iox::mepoo::MePooSegment::MePooSegment"
P.group("seg", [M + "mepoo_segment.cpp"],
        opaque=[r"^iox::Posix(User|Group)::", r"^iox::detail::PosixAcl::", r"^iox::mepoo::MemoryManager::", r"^iox::PosixSharedMemoryObject",
                r"^iox::UntypedRelativePointer::", r"^iox::PointerRepository", r"^iox::BumpAllocator::"])
P.root("seg", "seg_ctor", SEG)
P.group("conf", [M + "memory_manager.cpp"], opaque=[r"^iox::mepoo::MemoryManager::(addMemPool|generateChunkManagementPool)$"])
P.root("conf", "mm_conf", MM + "configureMemoryManager")


@P.rule("R9", "a segment reserves, registers and hands to its pools all the memory its configuration needs", min=10)
def segment(cx):
    for f in cx.fns("seg_ctor"):
        def plain(v):
            v = f.strip(v)
            if isinstance(v, Ins) and v.op == "alloca":
                return all(plain(w.ops[0]) for w in f.writers(v) if w.op == "store")
            return isinstance(v, Ins) and v.op in ("load", "call", "phi")
        req = f.calls(r"MemoryManager::requiredChunkMemorySize$")
        size = lambda v: plain(v) and f.derives(v, lambda x: isinstance(x, Ins) and x.op == "call" and bool(re.search(r"get_file_status$|::get_size$|requiredChunkMemorySize$", x.callee or "")) or
                                                (isinstance(x, Ins) and x.op == "field" and x.fld == "m_segmentSize"))
        base = lambda v: f.derives(v, lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("getBaseAddress"))
        ms = f.calls(r"PosixSharedMemoryObjectBuilder::memorySizeInBytes$")
        req_some(cx, f, ms, "the memory is created with a size", "create")
        for c in ms:
            cx.ob(plain(c.ops[1]) and f.derives(c.ops[1], lambda x: x in req) and all(v_arg(1)(f.strip(r.ops[0])) for r in req), f,
                  "the memory created is as large as the configuration of the segment needs", "create-size", c)
            wide(cx, f, c.ops[1], "the size of the memory is passed on unabridged", "create-size", c)
        rg = f.calls(r"::registerPtr$")
        req_some(cx, f, rg, "the memory is registered", "register")
        for c in rg:
            cx.ob(base(c.ops[1]) and size(c.ops[2]), f, "the whole memory of the segment is registered for relative pointers", "register", c)
            wide(cx, f, c.ops[2], "the registered size is unabridged", "register", c)
        for fld, ok in (("m_segmentId", lambda v: f.derives(v, lambda x: x in rg)), ("m_segmentSize", size)):
            st = [i for i in f.stores(r"^arg0\.%s$" % fld) if not v_const(0)(f.strip(i.ops[0]))]
            cx.ob(bool(st) and all(plain(i.ops[0]) and ok(i.ops[0]) for i in st), f, "%s tells the truth about the segment" % fld, fld, st[0] if st else None)
            for i in st:
                wide(cx, f, i.ops[0], "%s is unabridged" % fld, fld, i)
            w = f.search(None, is_ret, f._pset(st))
            cx.ob(w is None, f, "%s is set whenever a segment exists" % fld, fld, None, w)
        al = f.calls(r"BumpAllocator::BumpAllocator$")
        req_some(cx, f, al, "the pools get an allocator", "alloc")
        for c in al:
            cx.ob(base(c.ops[1]) and size(c.ops[2]), f, "the pools' memory is the memory of the segment", "alloc", c)
            wide(cx, f, c.ops[2], "the size of the pools' memory is unabridged", "alloc", c)
        cf = f.calls(r"MemoryManager::configureMemoryManager$")
        rows = table(f, {"conf": f._pset(cf)})
        check_rows(cx, f, rows, lambda r: r.n("conf") == 1, "the pools of a segment are made once", "configure")
        for c in cf:
            cx.ob(v_arg(1)(f.strip(c.ops[1])) and v_arg(3)(f.strip(c.ops[2])) and any(f.root_of(c.ops[3]) is f.root_of(a.ops[0]) for a in al), f,
                  "the pools are made as configured, records in the management memory and chunks in the segment", "configure", c)


@P.rule("R10", "each configured pool is made with its size and number of chunks, and the records after all pools", min=4)
def configure(cx):
    f = cx.fn("mm_conf")
    add, gen = f.calls(r"MemoryManager::addMemPool$"), f.calls(r"MemoryManager::generateChunkManagementPool$")
    req_some(cx, f, add, "pools are added", "add")
    for c in add:
        for k, o in (("size", c.ops[3]), ("number of chunks", c.ops[4])):
            v = f.strip(o)
            p = f.strip(v.ops[0]) if isinstance(v, Ins) and v.op == "load" else None
            why = "not the configured value"
            while isinstance(p, Ins) and why is not None:
                why = covers_vec(f, c, p, r"\.m_mempoolConfig$")
                p = f.strip(p.ops[0]) if p.op == "field" or (p.op == "getelementptr" and "off" in p.d) else None
            cx.ob(why is None, f, "each configured pool is made with its %s%s" % (k, "" if why is None else ": " + why), "each", c)
            wide(cx, f, o, "a pool is made with its unabridged %s" % k, "each", c)
        cx.ob(v_arg(2)(f.strip(c.ops[1])) and v_arg(3)(f.strip(c.ops[2])), f, "records come from the management memory, chunks from the segment", "allocators", c)
    rows = table(f, {"gen": f._pset(gen), "add": f._pset(add)})
    check_rows(cx, f, rows, lambda r: r.n("gen") == 1, "the records are made once", "gen")
    for g in gen:
        lim = lambda v: isinstance(v, Ins) and v.op == "call" and bool(re.search(r"::(c?end|size|empty)$", v.callee or "")) and "m_mempoolConfig" in f.path(v.ops[-1])
        req_guard(cx, f, g, lambda k, pol: any(lim(x) for x in k[1:] if isinstance(x, Ins)) and any(isinstance(x, Ins) and x.op == "phi" for x in k[1:]) and pol == (k[0] == "eq") or
                  (k[0] == "b" and pol and lim(k[1])), "the records are made when all pools were", "all-first")
        w = f.search(g, f._pset(add))
        cx.ob(w is None, f, "no pool is added after the records were made", "order", g, w)
        cx.ob(v_arg(2)(f.strip(g.ops[1])), f, "the records lie in the management memory", "gen-mem", g)


P.group("bump", ["iceoryx_hoofs/memory/source/bump_allocator.cpp"], opaque=[r"^iox::align$"], pure=[r"^iox::align$"])
P.root("bump", "bump_alloc", "iox::BumpAllocator::allocate")
P.root("bump", "bump_ctor", "iox::BumpAllocator::BumpAllocator")


@P.rule("R11", "the start-up allocator gives each caller memory of its own: aligned, inside the memory it manages, behind everything given out before", min=8)
def bump(cx):
    f = cx.fn("bump_alloc")
    M1 = (1 << 64) - 1
    START, POS, LEN, SIZE = ("load", "arg1.m_startAddress"), ("load", "arg1.m_currentPosition"), ("load", "arg1.m_length"), ("arg", 2)
    al = f.calls(r"^iox::align$")
    for a in al:
        cx.ob(f.affine(a.ops[0]) == {START: 1, POS: 1} and v_arg(3)(f.strip(a.ops[1])), f, "the first free address is rounded up to the alignment asked for", "align", a)
    A = [k for a in al for k in f.affine(a)]
    neg = lambda c: c == M1
    is_addr = lambda d: len(d) == 1 and any(d.get(a) == 1 for a in A)                                                # align(..)
    is_off = lambda d: len(d) == 2 and any(d.get(a) == 1 for a in A) and neg(d.get(START))                             # .. - start
    is_next = lambda d: len(d) == 3 and any(d.get(a) == 1 for a in A) and neg(d.get(START)) and d.get(SIZE) == 1       # .. - start + size
    is_left = lambda d: len(d) == 3 and any(neg(d.get(a)) for a in A) and d.get(START) == 1 and d.get(LEN) == 1       # length - (.. - start)
    L = lambda v: f.affine(v)
    inside = lambda k, pol: k[0] == "ult" and not pol and ((L(k[1]) == {LEN: 1} and is_off(L(k[2]))) or (is_next(L(k[1])) and (is_off(L(k[2])) or L(k[2]) == {SIZE: 1}))
                                                           or (L(k[1]) == {LEN: 1} and L(k[2]) == {SIZE: 1}))
    fits = lambda k, pol: k[0] == "ult" and not pol and ((is_left(L(k[1])) and L(k[2]) == {SIZE: 1}) or (L(k[1]) == {LEN: 1} and is_next(L(k[2]))))
    st = f.stores(r"^arg1\.m_currentPosition$")
    cx.ob(bool(st) and not [i for i in f.stores(r"^arg1\.m_(startAddress|length)$")], f, "only the position of the allocator changes", "state")
    for i in st:
        wide(cx, f, i.ops[0], "positions are computed in 64 bits", "next", i)
        cx.ob(is_next(L(i.ops[0])), f, "the next free position is the one behind the memory given out", "next", i)
        req_guard(cx, f, i, fits, "memory is given out only if it ends inside the memory managed", "fits")
        req_guard(cx, f, i, inside, "a size so large that the end wraps around is refused", "wrap")
    ok = store(r"^arg0\..*m_type_index$", isconst(0))
    rows = table(f, {"ok": ok, "err": store(r"^arg0\..*m_type_index$", isconst(1)), "adv": f._pset(st)})
    check_rows(cx, f, rows, lambda r: r.n("ok") == r.n("adv") and r.n("ok") + r.n("err") == 1, "the position advances once exactly when memory is given out", "once")
    val = [i for i in f.stores(r"^arg0\.m_store.*m_storage(\.data)?$") if i.d.get("vty") in ("ptr", "i64")]
    cx.ob(bool(val), f, "the memory given out is returned", "value")
    for i in val:
        v = f.strip(i.ops[0])
        vs = [o for o in v.ops if not isnull(o)] if isinstance(v, Ins) and v.op == "phi" else [v]
        cx.ob(all(is_addr(L(x)) for x in vs), f, "the memory given out starts at the rounded address", "value", i)
    for i in f.ins():
        if i.op == "icmp" and any(f.mentions(o, r"\.m_length$") for o in i.ops):
            for o in i.ops:
                wide(cx, f, o, "size and remaining memory are compared in 64 bits", "fits", i)
    for a in al:
        wide(cx, f, a.ops[0], "addresses are computed in 64 bits", "align", a)
    f = cx.fn("bump_ctor")
    for fld, ok in (("m_startAddress", v_arg(1)), ("m_length", v_arg(2)), ("m_currentPosition", v_const(0))):
        s = f.stores(r"^arg0\.%s$" % fld)
        cx.ob(bool(s) and all(ok(f.strip(i.ops[0])) for i in s), f, "%s starts as given" % fld, "init", s[0] if s else None)
        for i in s:
            wide(cx, f, i.ops[0], "%s is unabridged" % fld, "init", i)
