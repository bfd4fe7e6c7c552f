import os

from engine.core import Prop
from rules.lib import *

P = Prop("P23")
P.explain = """
For every path of the position-independent pointers the stored id and offset, and the address they resolve to, are computed as linear
forms over the inputs and the segment table and compared with the translation they must implement; the segment table's entries, its
search and its limits by decision tables per entry; the packed form by bit provenance."""
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "pointers.cpp")
OPQ = [r"^iox::PointerRepository::", r"^iox::getRepository$"]
P.group("r", [DRV], opaque=OPQ, containers=False)
for n in ("RelativePointer", "operator=", "operator->", "get", "getId", "getOffset", "getBasePtr", "registerPtr", "registerPtrWithId", "unregisterPtr", "unregisterAll", "getPtr", "searchId", "computeOffset", "computeRawPtr"):
    P.root("r", "r_" + n, "iox::RelativePointer::" + n)
P.root("r", "r_bool", "bool", filter=r"^iox::RelativePointer<int>::operator bool")
for n in ("relocatable_ptr", "operator=", "get", "operator->"):
    P.root("r", "o_" + n, "iox::relocatable_ptr::" + n)
P.root("r", "pack", "vd::pack")
P.group("p", [DRV], opaque=[r"^iox::PointerRepository::addPointerIfIdIsFree$"])
for n in ("registerPtrWithId", "registerPtr", "unregisterPtr", "unregisterAll", "getBasePtr", "searchId", "PointerRepository"):
    P.root("p", "p_" + n, "iox::PointerRepository::" + n)
P.root("p", "p_add", "iox::PointerRepository::addPointerIfIdIsFree")
P.group("d", ["iceoryx_hoofs/memory/source/relative_pointer_data.cpp", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"], opaque=OPQ + [r"^iox::mepoo::SharedChunk::"], containers=False)
for n in ("id", "offset", "reset", "isLogicalNullptr"):
    P.root("d", "d_" + n, "iox::RelativePointerData::" + n)
for n in ("ShmSafeUnmanagedChunk", "releaseToSharedChunk", "cloneToSharedChunk", "isLogicalNullptr", "getChunkHeader", "isNotLogicalNullptrAndHasNoOtherOwners"):
    P.root("d", "u_" + n, "iox::mepoo::ShmSafeUnmanagedChunk::" + n)
M = 1 << 64
MAX = M - 1


# ------------------------------------------------------------------ linear forms over the inputs, with merged values resolved along the path
def form(f, v, st, depth=0):
    v = res(f, v, st)
    if isinstance(v, Val):
        return ({1: v.v % M} if v.v else {}) if v.k == "c" else {} if v.k == "null" else {"arg%s" % v.v if v.k == "arg" else repr(v): 1}
    out = {}

    def add(d, k=1):
        for a, c in d.items():
            out[a] = (out.get(a, 0) + k * c) % M
        return {a: c for a, c in out.items() if c}
    if depth < 30:
        sub = lambda n: form(f, v.ops[n], st, depth + 1)
        if v.op in ("add", "sub"):
            add(sub(0))
            return add(sub(1), 1 if v.op == "add" else -1)
        c = f.strip(v.ops[1]) if len(v.ops) > 1 else None
        if v.op == "shl" and v_const()(c):
            return add(sub(0), 1 << c.v)
        if v.op == "mul" and v_const()(c):
            return add(sub(0), c.v)
        if v.op == "getelementptr" and "off" in v.d:
            add(sub(0))
            return add({1: v.d["off"]})
        if v.op == "getelementptr" and v.d.get("sty") == "i8" and len(v.ops) == 2:
            add(sub(0))
            return add(sub(1))
        if v.op == "or":
            return {"or(%s)" % ",".join(sorted((show(sub(0)), show(sub(1))))): 1}
        if v.op == "call" and v.callee:
            return {"%s(%s)" % (v.callee.split("::")[-1], ",".join(show(sub(n)) for n in range(len(v.ops)))): 1}
        b = bits(f, v)
        if b is not None and b[1:] != (0, 64):
            return {"%s[%d:%d]" % b: 1}
    return {f.path(v): 1}


def show(d):
    if not d:
        return "0"
    return "+".join(("%d" % c if a == 1 else a if c == 1 else "%d*%s" % (sgn(c), a)) for a, c in sorted(d.items(), key=lambda x: str(x[0])))


def bits(f, v):
    """(access path, first bit, width) of a value cut out of a 64 bit word"""
    if isinstance(v, Val) or v is None:
        return None
    if v.op == "load":
        return (f.path(v), 0, 64)
    if v.op in ("trunc", "zext", "bitcast", "freeze"):
        b = bits(f, v.ops[0])
        w = int(v.ty[1:]) if re.match(r"i\d+$", v.ty or "") else 64
        return None if b is None else (b[0], b[1], min(b[2], w)) if v.op == "trunc" else b
    c = f.strip(v.ops[1]) if len(v.ops) > 1 else None
    if v.op in ("and", "lshr") and v_const()(c):
        b = bits(f, v.ops[0])
        if b is None:
            return None
        if v.op == "lshr":
            return (b[0], b[1] + c.v, max(b[2] - c.v, 0))
        m = c.v % M
        return (b[0], b[1], min(b[2], m.bit_length())) if m & (m + 1) == 0 else None
    return None


REPO = "getRepository()"


def base(i):
    return "getBasePtr(%s,%s)" % (REPO, i)


def ptr_of(i, o):
    """the address of offset o in segment i"""
    return {base(i): 1, o: 1}


NUL = {1: MAX}


def fin(f, fields, lits):
    return finals(f, fields, {}, lits, deep=True)


def ret(f, r):
    return form(f, f.ret_value(r.ret, r.st), r.st)


@P.rule("R1", "a pointer is stored as the segment that contains it and the distance from its start; null is stored as null", min=9)
def create(cx):
    for rid, this in (("r_RelativePointer", 1), ("r_operator=", 1)):
        for f in cx.fns(rid):
            fd = {"id": r"^arg0\.m_id$", "off": r"^arg0\.m_offset$", "oid": r"^arg1\.m_id$", "ooff": r"^arg1\.m_offset$"}
            sig = re.search(r"\(([^()]*)\)$", f.full).group(1)
            V = lambda r, n: None if r.lit[n] is None else form(f, r.lit[n], r.st)
            tag = rid + "(" + sig + ")"
            if re.search(r"RelativePointer<int>( const)?&", sig):
                same_ = equals(v_arg(0), v_arg(1))
                rows = fin(f, fd, {"same": same_})
                live = [r for r in rows if not r.lit.get("same")]
                req_some(cx, f, live, "another pointer can be taken over", tag)
                check_rows(cx, f, live, lambda r: V(r, "id") == {"*arg1.m_id": 1} and V(r, "off") == {"*arg1.m_offset": 1}, "segment and offset are taken over", tag + "/copy")
                mv = sig.endswith("&&")
                check_rows(cx, f, live, lambda r: (V(r, "oid"), V(r, "ooff")) == ((NUL, NUL) if mv else (None, None)), "a moved-from pointer is null" if mv else "the source stays as it is", tag + "/source")
                check_rows(cx, f, rows, lambda r: not r.lit.get("same") or all(V(r, n) in (None, {"*arg%d.m_%s" % (k, x): 1}) for n, k, x in (("id", 0, "id"), ("off", 0, "offset"))) or not mv, "a pointer assigned to itself stays as it is", tag + "/self")
                if mv and rid == "r_operator=":
                    check_rows(cx, f, rows, lambda r: r.lit.get("same") is not None and (not r.lit["same"] or V(r, "oid") is None and V(r, "id") is None), "moving to itself changes nothing", tag + "/selfmove")
            elif sig.startswith("unsigned long"):
                rows = fin(f, fd, {})
                check_rows(cx, f, rows, lambda r: V(r, "id") == {"*arg2.m_value": 1} and V(r, "off") == {"arg1": 1}, "the given segment and offset are stored", tag)
            elif "segment_id_t" in sig:
                n = equals(v_path(r"^\*arg2\.m_value$"), v_const(MAX))
                rows = fin(f, fd, {"none": n})
                check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and V(r, "id") == {"*arg2.m_value": 1} and V(r, "off") == (NUL if r.lit["none"] else {"arg1": 1, base("*arg2.m_value"): MAX}), "the distance from the start of the given segment is stored", tag)
            else:
                S = "searchId(%s,arg1)" % REPO
                isS = lambda v: isinstance(v, Ins) and v.op == "call" and (v.callee or "").endswith("PointerRepository::searchId")
                n = equals(v_arg(1), isnull)
                rows = fin(f, fd, {"none": n, "noid": equals(isS, v_const(MAX))})
                check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and ((V(r, "id"), V(r, "off")) == (NUL, NUL) if r.lit["none"] else V(r, "id") in ({S: 1},) + ((NUL,) if r.lit.get("noid") else ()) and
                           V(r, "off") == (NUL if r.lit.get("noid") else {"arg1": 1, base(S): MAX})), "the segment that contains the address and the distance from its start are stored; null for null", tag)


@P.rule("R2", "a pointer resolves to the start of its segment in this process plus its offset; null resolves to null", min=8)
def resolve(cx):
    for rid, i, o in (("r_get", "*arg0.m_id", "*arg0.m_offset"), ("r_operator->", "*arg0.m_id", "*arg0.m_offset"), ("r_computeRawPtr", "*arg0.m_id", "*arg0.m_offset"), ("r_getPtr", "*arg0.m_value", "arg1")):
        for f in cx.fns(rid):
            isoff = v_arg(1) if o == "arg1" else v_path(r"^\*arg0\.m_offset$")
            rows = fin(f, {}, {"none": equals(isoff, v_const(MAX))})
            check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and ret(f, r) == ({} if r.lit["none"] else ptr_of(i, o)), "null iff the pointer is null, else segment start plus offset", rid)
            req_some(cx, f, [r for r in rows if r.lit.get("none") is False], "pointers are resolved", rid + "/some")
    for f in cx.fns("r_bool"):
        rows = fin(f, {}, {"none": equals(v_path(r"^\*arg0\.m_offset$"), v_const(MAX)), "zero": equals(lambda v: False, isnull)})

        def ok(r):
            v = res(f, f.ret_value(r.ret, r.st), r.st)
            if r.lit.get("none") is None:
                return False
            if isinstance(v, Val):
                return bool(v.v) is not r.lit["none"] if r.lit["none"] else False
            a, b = [form(f, x, r.st) for x in v.ops[:2]] if v.op == "icmp" else (None, None)
            return v.op == "icmp" and v.d.get("pred") == "ne" and sorted(map(show, (a, b))) == sorted(map(show, ({}, {} if r.lit["none"] else ptr_of("*arg0.m_id", "*arg0.m_offset"))))
        check_rows(cx, f, rows, ok, "true iff it resolves to something", "bool")
    for rid, i in (("r_getOffset", "*arg0.m_value"), ("r_computeOffset", "*arg0.m_id")):
        for f in cx.fns(rid):
            if f.full.endswith("getOffset() const"):
                check_rows(cx, f, fin(f, {}, {}), lambda r: ret(f, r) == {"*arg0.m_offset": 1}, "the stored offset", "offset")
                continue
            rows = fin(f, {}, {"none": equals(v_path("^" + re.escape(i) + "$"), v_const(MAX))})
            check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and ret(f, r) == (NUL if r.lit["none"] else {"arg1": 1, base(i): MAX}), "the distance from the start of the segment; null for the null segment", rid)
    for f in cx.fns("r_getId"):
        check_rows(cx, f, fin(f, {}, {}), lambda r: ret(f, r) == {"*arg0.m_id": 1}, "the stored segment", "id")


@P.rule("R3", "looking up, registering and unregistering go to the process wide segment table with what was given", min=6)
def forward(cx):
    for f in cx.fns("r_searchId"):
        rows = fin(f, {}, {"none": equals(v_arg(0), isnull)})
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and ret(f, r) == (NUL if r.lit["none"] else {"searchId(%s,arg0)" % REPO: 1}), "null has the null segment, else the table decides", "search")
    for f in cx.fns("r_getBasePtr"):
        i = "*arg0.m_id" if f.full.endswith("const") else "*arg0.m_value"
        check_rows(cx, f, fin(f, {}, {}), lambda r: ret(f, r) == {base(i): 1}, "the start registered for the segment", "base")
    for rid, want in (("r_registerPtrWithId", "registerPtrWithId(%s,*arg0.m_value,arg1,arg2)"), ("r_unregisterPtr", "unregisterPtr(%s,*arg0.m_value)")):
        for f in cx.fns(rid):
            check_rows(cx, f, fin(f, {}, {}), lambda r: ret(f, r) == {want % REPO: 1}, "forwarded, and the outcome returned", rid)
    for rid, want in (("r_registerPtr", ["arg0", REPO, "arg1", "arg2"]), ("r_unregisterAll", [REPO])):
        for f in cx.fns(rid):
            c = call("PointerRepository::%s$" % rid[2:])
            on_all_returns(cx, f, c, "forwarded", rid)
            for i in matching(f, c):
                cx.ob([show(form(f, o, {})) for o in i.ops] == want, f, "with what was given", rid + "/args", i)


@P.rule("R4", "a relocatable pointer keeps its target when it is copied or moved, and its distance when both are relocated", min=7)
def relocatable(cx):
    NONE = {1: 1}
    for rid in ("o_relocatable_ptr", "o_operator="):
        for f in cx.fns(rid):
            sig = re.search(r"\(([^()]*)\)$", f.full).group(1)
            tag = rid + "(" + sig + ")"
            fd = {"off": r"^arg0\.m_offset$", "ooff": r"^arg1\.m_offset$"}
            V = lambda r, n: None if r.lit[n] is None else form(f, r.lit[n], r.st)
            if "relocatable" not in sig:
                rows = fin(f, fd, {"none": equals(v_arg(1), isnull)})
                check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and V(r, "off") == (NONE if r.lit["none"] else {"arg1": 1, "arg0": MAX}), "the distance from itself is stored; null for null", tag)
                continue
            mv = sig.endswith("&&")
            tgt = lambda v: isinstance(v, Ins) and form(f, v, {}) == {"*arg1.m_offset": 1, "arg1": 1}
            rows = fin(f, fd, {"none": equals(v_path(r"^\*arg1\.m_offset$"), v_const(1)), "same": equals(v_arg(0), v_arg(1)), "zero": equals(tgt, isnull)})
            live = [r for r in rows if not r.lit.get("same")]
            req_some(cx, f, live, "another pointer can be taken over", tag)
            check_rows(cx, f, live, lambda r: r.lit.get("none") is not None and V(r, "off") == (NONE if r.lit["none"] or r.lit.get("zero") else {"*arg1.m_offset": 1, "arg1": 1, "arg0": MAX}), "it points to the same target", tag + "/target")
            check_rows(cx, f, live, lambda r: V(r, "ooff") == (NONE if mv else None), "a moved-from pointer is null" if mv else "the source stays as it is", tag + "/source")
            if mv and rid == "o_operator=":
                check_rows(cx, f, rows, lambda r: r.lit.get("same") is not None and (not r.lit["same"] or V(r, "ooff") is None and V(r, "off") is None), "moving to itself changes nothing", tag + "/selfmove")
    for rid in ("o_get", "o_operator->"):
        for f in cx.fns(rid):
            rows = fin(f, {}, {"none": equals(v_path(r"^\*arg0\.m_offset$"), v_const(1))})
            check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and ret(f, r) == ({} if r.lit["none"] else {"*arg0.m_offset": 1, "arg0": 1}), "null iff it is null, else the own address plus the distance", rid)


def cap_of(f):
    return int(re.search(r"PointerRepository<.*?, (\d+)ul>", f.full).group(1))


def entry(f, p):
    """index of the table entry an address lies in, None if it is not in the table"""
    p, n = f.strip(p), 0
    while isinstance(p, Ins) and p.op in ("field", "getelementptr", "bitcast") and n < 10:
        p, n = f.strip(p.ops[0]), n + 1
    if isinstance(p, Ins) and p.op == "call" and re.search(r"iox::vector::(operator\[\]|at)$", p.callee or "") and re.search(r"^arg\d\.m_info$", f.path(p.ops[0])):
        return p.ops[1]
    return None


def acc(f, fld):
    """loads of the field of a table entry"""
    return lambda v: isinstance(v, Ins) and v.op == "load" and re.search(r"\.%s$" % fld, f.addr(v)) is not None


def in_range(f, a, lo, hi):
    """literals: a >= lo, a <= hi"""
    def low(k, pol):
        if k[0] == "ult" and a(f.strip(k[1])) and v_const(lo)(f.strip(k[2])):
            return not pol
        if k[0] == "ult" and a(f.strip(k[2])) and v_const(lo - 1)(f.strip(k[1])):
            return pol
        if k[0] == "eq" and lo == 1 and (a(f.strip(k[1])) and v_const(0)(f.strip(k[2])) or a(f.strip(k[2])) and v_const(0)(f.strip(k[1]))):
            return not pol
        return None

    def high(k, pol):
        if k[0] == "ult" and a(f.strip(k[1])) and v_const(hi + 1)(f.strip(k[2])):
            return pol
        if k[0] == "ult" and a(f.strip(k[2])) and v_const(hi)(f.strip(k[1])):
            return not pol
        return None
    return low, high


@P.rule("R5", "an id belongs to one registered segment at a time; ids in range only", min=12)
def table_(cx):
    for f in cx.fns("p_add"):
        for i in f.ins():
            if i.op in ("load", "store"):
                e = entry(f, f.ptr(i))
                if e is not None:
                    cx.ob(v_arg(1)(f.strip(e)), f, "the entry of the id is used", "add/entry", i)
        rows = fin(f, {"base": r"\.basePtr$", "end": r"\.endPtr$", "max": r"^arg0\.m_maxRegistered$"},
                   {"free": equals(acc(f, "basePtr"), isnull), "more": less(v_path(r"^\*arg0\.m_maxRegistered$"), v_arg(1))})
        V = lambda r, n: None if r.lit[n] is None else form(f, r.lit[n], r.st)

        def ok(r):
            if r.lit.get("free") is None:
                return False
            if not r.lit["free"]:
                return ret(f, r) == {} and V(r, "base") is None and V(r, "end") is None and V(r, "max") is None
            return ret(f, r) == {1: 1} and V(r, "base") == {"arg2": 1} and V(r, "end") == {"arg2": 1, "arg3": 1, 1: MAX}
        check_rows(cx, f, rows, ok, "a free id gets start and last address of the segment, a taken one is refused", "add/table")
        check_rows(cx, f, [r for r in rows if r.lit.get("free")], lambda r: r.lit.get("more") is not None and (V(r, "max") == {"arg1": 1} if r.lit["more"] else V(r, "max") in (None, {"*arg0.m_maxRegistered": 1})), "the largest id in use is kept", "add/max")
        req_some(cx, f, [r for r in rows if r.lit.get("free")], "segments can be registered", "add/some")
    ADD = call(r"PointerRepository::addPointerIfIdIsFree$")
    for f in cx.fns("p_registerPtrWithId"):
        lo, hi = in_range(f, v_arg(1), 1, cap_of(f) - 1)
        rows = bool_rows(f, {"add": ADD}, {"hi": hi, "ok": truth_of(ADD)})
        check_rows(cx, f, rows, lambda r: r.lit.get("hi") is not None and (r.n("add") == 1 and (r.lit["ret"] == ("is", "ok", True) or r.lit.get("ok") is r.lit["ret"]) if r.lit["hi"] else not r.n("add") and r.lit["ret"] is False), "registered iff the id is in range and free", "with-id")
        for i in matching(f, ADD):
            cx.ob([f.path(o) for o in i.ops] == ["arg0", "arg1", "arg2", "arg3"], f, "with what was given", "with-id/args", i)
    for f in cx.fns("p_registerPtr"):
        adds = matching(f, ADD)
        req_some(cx, f, adds, "ids are tried", "any/some")
        for a in adds:
            c = Counter(f, a.ops[1])
            cx.ob(c.ok and bool(c.inits) and all(v_const(1)(x) for x in c.inits), f, "all ids are tried, starting with the first", "any/first", a)
            cx.ob([f.path(a.ops[n]) for n in (0, 2, 3)] == ["arg1", "arg2", "arg3"], f, "with what was given", "any/args", a)
            if not c.ok:
                continue
            done = c.done(cap_of(f))
            w = f.search(c.steps, lambda i: i in c.steps, lambda i: i is a, done)
            cx.ob(w is None, f, "no id is skipped", "any/skip", a, w)
            w = f.search(None, is_ret, None, either(done, holds(truth_of(ADD))))
            cx.ob(w is None, f, "it fails only when no id is free", "any/fail", a, w)
            w = f.search_edge(holds(truth_of(ADD)), lambda i: ADD(i) or is_ret(i), store(r"^arg0\.m_hasValue$", v_const(1)))
            cx.ob(w is None, f, "the first free id is taken", "any/taken", a, w)
            for s in f.stores(r"^arg0\.m_hasValue$"):
                if v_const(1)(f.strip(s.ops[0])):
                    req_guard(cx, f, s, holds(truth_of(ADD)), "an id is returned iff it was registered", "any/iff")
            for s in f.stores(r"^arg0\.m_data"):
                cx.ob(same(f, s.ops[0], a.ops[1]), f, "the registered id is returned", "any/id", s)
    for f in cx.fns("p_unregisterPtr"):
        lo, hi = in_range(f, v_arg(1), 1, cap_of(f) - 1)
        rows = fin(f, {"base": r"\.basePtr$"}, {"lo": lo, "hi": hi, "free": equals(lambda v: acc(f, "basePtr")(v) and v_arg(1)(f.strip(entry(f, f.ptr(v)) or v)), isnull)})

        def un(r):
            used = r.lit.get("lo") is True and r.lit.get("hi") is True and r.lit.get("free") is False
            known = used or r.lit.get("lo") is False or r.lit.get("hi") is False or r.lit.get("free") is True
            return known and ret(f, r) == ({1: 1} if used else {}) and ((r.lit["base"] is not None and isnull(r.lit["base"])) if used else r.lit["base"] is None)
        check_rows(cx, f, rows, un, "a registered segment is forgotten, and reported as such; anything else is refused", "unregister")
        for i in f.ins():
            if i.op == "store" and entry(f, f.ptr(i)) is not None:
                cx.ob(v_arg(1)(f.strip(entry(f, f.ptr(i)))), f, "the entry of the id is used", "unregister/entry", i)
        req_some(cx, f, [r for r in rows if r.lit["base"] is not None], "segments can be unregistered", "unregister/some")
    for rid in ("p_unregisterPtr", "p_registerPtr", "p_registerPtrWithId"):
        for f in cx.fns(rid):
            top = v_path(r"^\*arg0\.m_maxRegistered$")
            last = equals(v_arg(1), top)

            def gone(v):
                e = entry(f, f.ptr(v)) if acc(f, "basePtr")(v) else None
                return e is not None and top(f.strip(e))
            for w in f.stores(r"\.m_maxRegistered$"):
                a, c = lin(f, w.ops[0])
                ok = c == -1 and (rid == "p_unregisterPtr" and a == Val("arg", 1) or isinstance(a, tuple) and a[0] == "load" or isinstance(a, Ins) and top(a) or a == ("arg", 1))
                cx.ob(ok, f, "the largest id in use is only lowered step by step", rid + "/max", w)
                req_guard(cx, f, w, either(holds(last, True), holds(equals(gone, isnull), True)), "the largest id in use is not lowered while it is registered", rid + "/max", False)
    for f in cx.fns("p_unregisterAll"):
        st = [i for i in f.stores(r"\.basePtr$") if isnull(f.strip(i.ops[0]))]
        req_some(cx, f, st, "all segments are forgotten", "all/some")
        for s in st:
            p = f.strip(s.ops[1])
            while isinstance(p, Ins) and p.op in ("field", "getelementptr") and not vec_elem(f, p, r"^arg0\.m_info$"):
                p = f.strip(p.ops[0])
            w = covers_vec(f, s, p, r"^arg0\.m_info$")
            cx.ob(w is None, f, "every segment is forgotten (%s)" % w, "all", s)
    for f in cx.fns("p_getBasePtr"):
        lo, hi = in_range(f, v_arg(1), 1, cap_of(f) - 1)
        rows = fin(f, {}, {"lo": lo, "hi": hi})

        def gb(r):
            v = res(f, f.ret_value(r.ret, r.st), r.st)
            if r.lit.get("lo") is False or r.lit.get("hi") is False:
                return isnull(v)
            return r.lit.get("lo") is True and r.lit.get("hi") is True and acc(f, "basePtr")(v) and v_arg(1)(f.strip(entry(f, f.ptr(v)) or v))
        check_rows(cx, f, rows, gb, "the start of the segment registered for the id, null for an id out of range", "base")
    for f in cx.fns("p_PointerRepository"):
        c = call(r"iox::vector::vector$", (0, r"^arg0\.m_info$"))
        on_all_returns(cx, f, c, "the table is set up", "new")
        for i in matching(f, c):
            cx.ob(len(i.ops) > 1 and v_const(cap_of(f))(f.strip(i.ops[1])), f, "with an entry for every id", "new/size", i)


@P.rule("R6", "a segment is found iff it is registered and contains the address; every registered segment is looked at", min=6)
def search(cx):
    for f in cx.fns("p_searchId"):
        lds = [i for i in f.ins() if acc(f, "basePtr")(i) or acc(f, "endPtr")(i)]
        req_some(cx, f, lds, "the segments are looked at", "some")
        ids = [entry(f, f.ptr(i)) for i in lds]
        c = Counter(f, ids[0]) if ids and ids[0] is not None else None
        cx.ob(c is not None and c.ok and bool(c.inits) and all(v_const(1)(x) for x in c.inits) and all(x is not None and (c.is_val(x)) for x in ids), f, "the segments are visited one by one, from the first id", "first", lds[0] if lds else None)
        if c is None or not c.ok:
            continue
        top = v_path(r"^\*arg0\.m_maxRegistered$")
        B, E = acc(f, "basePtr"), acc(f, "endPtr")
        cur = lambda v: c.is_val(v)
        lits = {"lo": lambda k, pol: (None if less(v_arg(1), B)(k, pol) is None else not less(v_arg(1), B)(k, pol)),
                "hi": lambda k, pol: (None if less(E, v_arg(1))(k, pol) is None else not less(E, v_arg(1))(k, pol)),
                "reg": lambda k, pol: (None if equals(B, isnull)(k, pol) is None else not equals(B, isnull)(k, pol)),
                "over": less(top, cur)}
        bad = {"skip": None, "found": None, "end": None}
        steps = {s.id for s in c.steps}
        need = ("lo", "hi", "reg")

        def step(st, i):
            if i.id in steps:
                if not any(st.get(n) is False for n in need):
                    bad["skip"] = i
                for n in need:
                    st.pop(n, None)
            return None

        def edge(st, k, pol):
            for n, p in lits.items():
                t = p(k, pol)
                if t is not None:
                    if n in st and n in need and st[n] is not t and n == "reg":
                        return False
                    st[n] = t
            return None
        got = 0
        for r, st, tr in f.simulate({}, step, edge, phis=f.ret_phis()):
            v, n = f.strip(r.ops[0]), 0
            while isinstance(v, Ins) and v.op == "phi" and not c.is_val(v) and ("phi", v.id) in st and n < 10:
                v, n = f.strip(st[("phi", v.id)]), n + 1
            if c.is_val(v):
                got += 1
                if not all(st.get(n) is True for n in need):
                    bad["found"] = tr
            elif v_const(0)(v):
                if st.get("over") is not True:
                    bad["end"] = tr
            else:
                bad["found"] = tr
        cx.ob(bool(got), f, "segments can be found", "got")
        cx.ob(bad["skip"] is None, f, "a segment is passed over only if it is not registered or does not contain the address", "skip", bad["skip"])
        cx.ob(bad["found"] is None, f, "the segment found is registered and contains the address", "found", None, bad["found"])
        cx.ob(bad["end"] is None, f, "no segment is found only after all were looked at", "end", None, bad["end"])


@P.rule("R7", "the packed form keeps segment and offset apart and gives both back; what does not fit becomes null", min=10)
def packed(cx):
    W = r"m_idAndOffset"
    for f in cx.fns("d_id"):
        for i in matching(f, is_ret):
            b = bits(f, i.ops[0])
            cx.ob(b is not None and re.search(W, b[0]) and b[1:] == (0, 16), f, "the segment is the low 16 bits", "id", i)
    for f in cx.fns("d_offset"):
        for i in matching(f, is_ret):
            b = bits(f, i.ops[0])
            cx.ob(b is not None and re.search(W, b[0]) and b[1:] == (16, 48), f, "the offset is the upper 48 bits", "offset", i)
    for f in cx.fns("d_reset"):
        rows = fin(f, {"w": W}, {})
        check_rows(cx, f, rows, lambda r: r.lit["w"] is not None and form(f, r.lit["w"], r.st) == NUL, "reset makes it null", "reset")
    for rid in ("d_isLogicalNullptr", "u_isLogicalNullptr"):
        for f in cx.fns(rid):
            rows = bool_rows(f, {}, {"null": equals(v_path(W), v_const(MAX))})
            check_rows(cx, f, rows, lambda r: returns_iff(r, "null") or r.lit["ret"] == ("is", "null", True), "null iff reset", rid)
    for f in cx.fns("pack"):
        lo, idok = in_range(f, v_arg(1), 1, 65534)
        lo, offok = in_range(f, v_arg(2), 1, (1 << 48) - 2)
        rows = fin(f, {"w": r"^arg0(\.m_idAndOffset)?$"}, {"id": idok, "off": offok})

        def ok(r):
            if r.lit["w"] is None:
                return False
            w = form(f, r.lit["w"], r.st)
            if r.lit.get("id") is False or r.lit.get("off") is False:
                return w == NUL
            return r.lit.get("id") is True and r.lit.get("off") is True and w in ({"or(65536*arg2,arg1)": 1}, {"arg1": 1, "arg2": 65536})
        check_rows(cx, f, rows, ok, "segment and offset side by side, or null if one does not fit", "pack")
        req_some(cx, f, [r for r in rows if r.lit.get("id") and r.lit.get("off")], "pointers are packed", "pack/some")
    for rid, a in (("u_releaseToSharedChunk", 1), ("u_cloneToSharedChunk", 1), ("u_getChunkHeader", 0), ("u_isNotLogicalNullptrAndHasNoOtherOwners", 0)):
        for f in cx.fns(rid):
            w = r"*arg%d.m_chunkManagement.m_idAndOffset" % a
            n = 0
            for i in matching(f, call(r"PointerRepository::getBasePtr$")):
                if re.search(r"m_chunkHeader", f.path(i.ops[1])):
                    continue
                n += 1
                cx.ob(bits(f, i.ops[1]) == (w, 0, 16), f, "the segment is looked up", rid + "/segment", i)
                use = [x for x in f.ins() if x.op == "add" and any(f.strip(o) is i for o in x.ops)]
                cx.ob(bool(use) and all(bits(f, o) == (w, 16, 48) for x in use for o in x.ops if f.strip(o) is not i), f, "the offset is added to its start", rid + "/offset", i)
            cx.ob(n > 0, f, "the management data is resolved", rid)
            for i in matching(f, call(r"PointerRepository::getBasePtr$")):
                req_guard(cx, f, i, holds(equals(v_path(W), v_const(MAX)), False), "only if it is not null", rid + "/null")
    for f in cx.fns("u_ShmSafeUnmanagedChunk"):
        rel = "release(arg1)"
        S = "searchId(%s,%s)" % (REPO, rel)
        rows = fin(f, {"w": r"^arg0\.m_chunkManagement(\.m_idAndOffset)?$"}, {"has": truth_of(call(r"SharedChunk::operator bool$|SharedChunk::bool$|^bool$"))})
        off = {rel: 65536, base(S): M - 65536}
        want = [{"or(%s,%s)" % tuple(sorted((show({S: 1}), show(off)))): 1}, dict(off, **{S: 1})]
        check_rows(cx, f, rows, lambda r: r.lit["w"] is not None and (form(f, r.lit["w"], r.st) == NUL or (r.lit.get("has") and form(f, r.lit["w"], r.st) in want)), "the released management data is stored as segment and offset, or null", "unmanaged")
        req_some(cx, f, [r for r in rows if r.lit["w"] is not None and form(f, r.lit["w"], r.st) in want], "chunks are stored", "unmanaged/some")
