from engine.core import Prop
from rules.ledger import ledger
from rules.lib import *
P = Prop("P01")
P.explain = """
Ownership ledger over the normalised flow graph of every function that can move, copy, adopt or give up a reference to a
chunk: along every path the number of increments minus decrements of the shared reference counter must equal the change
in the number of owner slots that hold the chunk, the free call must be taken exactly on the branch where the previous
count was one, and the counter hand-over has to carry acquire/release ordering."""
M = "iceoryx_posh/source/mepoo/"
P.group("sc", [M + "shared_chunk.cpp", M + "shm_safe_unmanaged_chunk.cpp", "iceoryx_hoofs/memory/source/relative_pointer_data.cpp"],
        opaque=[r"^iox::mepoo::MemoryManager::freeChunk$", r"^iox::RelativePointerData::RelativePointerData\(unsigned"])
SC = "iox::mepoo::SharedChunk::"
US = "iox::mepoo::ShmSafeUnmanagedChunk::"
P.root("sc", "dtor", SC + "~SharedChunk")
P.root("sc", "copy_ctor", SC + "SharedChunk", filter=r"\(iox::mepoo::SharedChunk const&\)")
P.root("sc", "move_ctor", SC + "SharedChunk", filter=r"\(iox::mepoo::SharedChunk&&\)")
P.root("sc", "ctor", SC + "SharedChunk", filter=r"\(iox::mepoo::ChunkManagement\*\)")
P.root("sc", "copy_assign", SC + "operator=", filter=r"\(iox::mepoo::SharedChunk const&\)")
P.root("sc", "move_assign", SC + "operator=", filter=r"\(iox::mepoo::SharedChunk&&\)")
P.root("sc", "release", SC + "release")
P.root("sc", "u_ctor", US + "ShmSafeUnmanagedChunk", filter=r"\(iox::mepoo::SharedChunk\)")
P.root("sc", "u_release", US + "releaseToSharedChunk")
P.root("sc", "u_clone", US + "cloneToSharedChunk")
P.root("sc", "u_sole", US + "isNotLogicalNullptrAndHasNoOtherOwners")

P.root("sc", "bool", SC + "operator bool")
P.root("sc", "eq", SC + "operator==", filter=r"\(iox::mepoo::SharedChunk const&\)")
P.root("sc", "payload", SC + "getUserPayload")
P.root("sc", "header", SC + "getChunkHeader")
P.root("sc", "u_header", US + "getChunkHeader", filter=r"\(\)$")
P.root("sc", "u_null", US + "isLogicalNullptr")
NULLPTR = (1 << 64) - 1

# owner slots: argument index -> (holds an owner before, holds an owner after)
TABLE = {
    # root: (slots before, slots after, returned value is an owner, owning pointer argument)
    "dtor": ([0], [], False, None),
    "copy_ctor": ([1], [0, 1], False, None),
    "move_ctor": ([1], [0, 1], False, None),
    "ctor": ([], [0], False, 1),
    "copy_assign": ([0, 1], [0, 1], False, None),
    "move_assign": ([0, 1], [0, 1], False, None),
    "release": ([0], [0], True, None),
    "u_ctor": ([1], [0, 1], False, None),
    "u_release": ([1], [0, 1], False, None),
    "u_clone": ([1], [0, 1], False, None),
}


@P.rule("R1", "reference counter changes equal the change in owner slots on every path; freed iff the count hits zero", min=10)
def conserve(cx):
    for rid, (before, after, ret, own) in TABLE.items():
        for f in cx.fns(rid):
            bad = ledger(f, before, after, ret, own)
            if not bad:
                cx.ob(True, f, "increments - decrements == owner slots gained on all paths of " + rid, rid)
            for tag, what, at, w in bad:
                cx.ob(False, f, what, rid + "/" + tag, at, w)


def strong(f, rmw):
    if rmw.ord in ("acq_rel", "seq_cst"):
        return True
    # release decrement + acquire fence before the free is equivalent
    if rmw.ord == "release":
        fr = f.calls(r"freeChunk$")
        fence = [i for i in f.ins() if i.op == "fence" and i.ord in ("acquire", "acq_rel", "seq_cst")]
        return all(f.search(rmw, lambda i, c=c: i is c, f._pset(fence)) is None for c in fr)
    return False


@P.rule("R2", "the decrement that may free a chunk orders all earlier accesses of every owner before the free", min=3)
def order(cx):
    for rid in ("dtor", "copy_assign", "move_assign"):
        for f in cx.fns(rid):
            for i in f.accesses(r"m_referenceCounter", ("atomicrmw",)):
                if i.rmw == "sub":
                    cx.ob(strong(f, i), f, "reference counter decrement is at least acquire-release (is %s)" % i.ord, "order", i)


@P.rule("R3", "sole ownership is only reported for a present chunk whose reference count is read as one, with acquire", min=2)
def sole(cx):
    for f in cx.fns("u_sole"):
        lds = f.loads(r"m_referenceCounter")
        # returned value: true only on 'count == 1'
        res = f.simulate({}, lambda s, i: None, lambda s, k, p: s.__setitem__("one", p) if (
            k[0] == "eq" and getattr(k[2], "v", None) == 1 and k[1] in lds) else None)
        ok = bool(lds) and bool(res)
        for r, st, tr in res:
            v = f.ret_value(r, st)
            if v is not None and v.__class__.__name__ == "Val" and v.k == "c":
                good = (not v.v) or st.get("one") is True
            else:
                k, p = f.lit(v)
                good = k[0] == "eq" and p and k[1] in lds and getattr(k[2], "v", None) == 1
            if not good:
                cx.ob(False, f, "sole ownership reported without the reference count being one", "sole", r, tr)
                ok = False
        cx.ob(ok, f, "true is returned only when the loaded reference count equals one", "sole-ok")
        for l in lds:
            req_guard(cx, f, l, holds(equals(v_path(r"m_chunkManagement\.m_idAndOffset$"), v_const(NULLPTR)), False), "the counter is only looked at when a chunk is held", "sole-null")
            cx.ob(l.ord in ("acquire", "seq_cst"), f, "the sole-owner test acquires (is %s): the chunk is reused for writing" % l.ord, "sole-order", l)


CM = r"^arg%d\.m_chunkManagement(\.m_idAndOffset)?$"
FR, DEC, INC = call(r"freeChunk$"), rmw(r"m_referenceCounter", "sub"), rmw(r"m_referenceCounter", "add")
same_object = equals(v_arg(0), v_arg(1))
void = lambda v: v is None or isnull(v) or isinstance(v, Val) and v.k == "c" and v.v == 0
gone = lambda v: isnull(v) or isinstance(v, Val) and v.k == "c" and v.v in (0, NULLPTR) or isinstance(v, Ins) and v.op == "call" and re.search(r"memset", v.callee or "")


def no_mgmt(n):
    p = v_path(r"^\*arg%d\.m_chunkManagement$" % n)
    return equals(p, isnull)


@P.rule("R4", "a chunk handle that was copied, moved, released or rebuilt refers to exactly the chunk its source held, and a moved-from handle to none", min=20)
def values(cx):
    for rid in ("copy_ctor", "move_ctor", "copy_assign", "move_assign"):
        for f in cx.fns(rid):
            rows = finals(f, {"to": CM % 0, "from": CM % 1}, {"dec": DEC, "inc": INC}, {"same": same_object, "equal": equals(v_path(r"^\*arg0\.m_chunkManagement$"), v_path(r"^\*arg1\.m_chunkManagement$")), "none": no_mgmt(1)})
            live = [r for r in rows if not r.lit.get("same")]
            check_rows(cx, f, live, lambda r: from_path(f, r.lit["to"], CM % 1) or r.lit.get("none") and gone(r.lit["to"]) or r.lit.get("equal") and r.lit["to"] is None,
                       "the target refers to the chunk of the source", rid + "/target")
            if rid.startswith("move"):
                check_rows(cx, f, live, lambda r: gone(r.lit["from"]) or r.lit.get("none"), "the moved-from handle refers to nothing", rid + "/source")
            else:
                check_rows(cx, f, rows, lambda r: r.lit["from"] is None, "the copied handle is left alone", rid + "/source")
                check_rows(cx, f, live, lambda r: r.lit.get("none") is not None or r.lit.get("equal"), "an empty source is told apart before its counter is touched", rid + "/none")
            if rid.endswith("assign"):
                check_rows(cx, f, rows, lambda r: r.lit.get("same") is not None or not r.n("dec") or (rid == "copy_assign" and r.before("inc", "dec")),
                           "assigning a handle to itself cannot give up the chunk it is about to take over", rid + "/self")
                check_rows(cx, f, [r for r in rows if r.lit.get("same")] or rows, lambda r: not r.lit.get("same") or (not r.n("dec") and not r.n("inc") and r.lit["to"] is None or r.before("inc", "dec")),
                           "assigning a handle to itself changes nothing", rid + "/self-noop")
    for f in cx.fns("ctor"):
        rows = finals(f, {"to": CM % 0})
        check_rows(cx, f, rows, lambda r: v_arg(1)(r.lit["to"]), "the handle refers to the given chunk", "ctor")
    for f in cx.fns("release"):
        rows = finals(f, {"to": CM % 0})
        check_rows(cx, f, rows, lambda r: gone(r.lit["to"]), "the released handle refers to nothing", "release/empty")
        check_rows(cx, f, rows, lambda r: re.search(r"^\*arg0\.m_chunkManagement$", f.path(res(f, f.ret_value(r.ret, r.st), r.st))) is not None and fresh(f, r), "the chunk is handed out", "release/out")
    isnil = equals(v_path(r"m_chunkManagement\.m_idAndOffset$"), v_const(NULLPTR))
    for rid, clear in (("u_release", True), ("u_clone", False)):
        for f in cx.fns(rid):
            rows = finals(f, {"to": CM % 0, "from": CM % 1}, {"raw": call(r"computeRawPtr$")}, {"nil": isnil})
            check_rows(cx, f, rows, lambda r: r.lit.get("nil") is not None, "an empty slot is told apart", rid + "/examined")
            check_rows(cx, f, rows, lambda r: gone(r.lit["to"]) if r.lit.get("nil") else (isinstance(r.lit["to"], Ins) and (r.lit["to"].callee or "").endswith("computeRawPtr")), "a handle to the chunk is returned iff the slot holds one", rid + "/value")
            check_rows(cx, f, rows, lambda r: (r.lit["from"] is None or r.lit.get("nil")) if not clear else (gone(r.lit["from"]) or r.lit.get("nil")), "the slot is emptied by a release, kept by a clone", rid + "/slot")
    for f in cx.fns("u_ctor"):
        rp = [i for i in f.ins() if i.op == "call" and re.search(r"RelativePointer(<.*>)?::RelativePointer$", i.callee or "")]
        rows = finals(f, {"to": CM % 0, "from": CM % 1}, {"pack": call(r"RelativePointerData::RelativePointerData$"), "rel": lambda i: i in rp}, {"none": no_mgmt(1)})
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and (gone(r.lit["to"]) if r.lit["none"] else r.n("pack") == 1 and r.n("rel") == 1 and not gone(r.lit["to"])), "the slot refers to the chunk iff there is one", "u_ctor/value")
        check_rows(cx, f, rows, lambda r: r.lit.get("none") or gone(r.lit["from"]), "the handle gave up its chunk", "u_ctor/source")
        for i in rp:
            cx.ob(re.search(r"^\*arg1\.m_chunkManagement$", f.path(i.ops[1])) is not None, f, "it is the given chunk's address that is made relative", "u_ctor/addr", i)
        for i in matching(f, call(r"RelativePointerData::RelativePointerData$")):
            for k, nm, lim in ((1, "getId", 0xffff), (2, "getOffset", (1 << 48) - 1)):
                v = f.strip(i.ops[k])
                cx.ob(isinstance(v, Ins) and (v.callee or "").endswith(nm), f, "segment id and offset are packed in their places", "u_ctor/" + nm, i)
                if isinstance(v, Ins):
                    req_guard(cx, f, i, holds(fits(f, v, lim)), "an id or offset that does not fit is refused before it is packed", "u_ctor/fits/" + nm)


def fits(f, v, lim):
    """literal: v <= lim"""
    def lit(k, pol):
        if k[0] in ("ult", "ugt", "ule", "uge") and len(k) > 2:
            a, b = f.strip(k[1]), f.strip(k[2])
            op = k[0] if pol else {"ult": "uge", "ugt": "ule", "ule": "ugt", "uge": "ult"}[k[0]]
            if b is v and isinstance(a, Val):
                a, b, op = b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}[op]
            if a is v and isinstance(b, Val) and b.k == "c":
                if op == "ule":
                    return True if b.v <= lim else None
                if op == "ult":
                    return True if b.v <= lim + 1 else None
        return None
    return lit


def fresh(f, r):
    """the returned load happened before the slot was cleared"""
    v = res(f, f.ret_value(r.ret, r.st), r.st)
    st = [i for i in f.ins() if i.op == "store" and re.search(CM % 0, f.addr(i))]
    return isinstance(v, Ins) and v.op == "load" and all(f.search(s, lambda i: i is v, set()) is None for s in st)


@P.rule("R5", "a handle says it is empty iff it refers to no chunk, and only then hands out no payload and no header", min=6)
def looks(cx):
    for f in cx.fns("bool"):
        check_rows(cx, f, bool_rows(f, {}, {"held": nonnull(v_path(r"^\*arg0\.m_chunkManagement$"))}), lambda r: returns_iff(r, "held"), "true iff a chunk is held", "bool")
    for f in cx.fns("eq"):
        q = equals(v_path(r"^\*arg0\.m_chunkManagement$"), v_path(r"^\*arg1\.m_chunkManagement$"))
        check_rows(cx, f, bool_rows(f, {}, {"eq": q}), lambda r: returns_iff(r, "eq"), "equal iff they refer to the same chunk", "eq")
    isnil = equals(v_path(r"m_chunkManagement\.m_idAndOffset$"), v_const(NULLPTR))
    for f in cx.fns("u_null"):
        check_rows(cx, f, bool_rows(f, {}, {"nil": isnil}), lambda r: returns_iff(r, "nil"), "null iff no chunk is held", "u_null")
    for rid, lit in (("payload", no_mgmt(0)), ("header", no_mgmt(0)), ("u_header", isnil)):
        for f in cx.fns(rid):
            rows = table(f, {}, {"none": lit})
            check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and isnull(res(f, f.ret_value(r.ret, r.st), r.st)) == r.lit["none"], "nothing is handed out iff no chunk is held", rid)
