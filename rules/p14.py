from engine.core import Prop
from rules.lib import *

P = Prop("P14")
P.explain = """
For every path of the client and server port's user functions the value of each header field, the result and the chunk operations at
the return are tabulated and compared with the request/response contract: a request names its client's queue, a response copies the
routing data of its request, is sent to exactly that queue or freed, and every result tells what happened to the chunk."""
D = "iceoryx_posh/source/popo/"
OPQ = [r"^iox::popo::Chunk(Sender|Receiver|Distributor|QueuePopper)::", r"^iox::mepoo::ChunkHeader::"]
P.group("r", [D + "ports/client_port_user.cpp", D + "ports/server_port_user.cpp", D + "rpc_header.cpp", D + "ports/base_port.cpp"], opaque=OPQ)
for n in ("allocateRequest", "releaseRequest", "sendRequest", "getResponse", "releaseResponse", "releaseQueuedResponses", "hasNewResponses", "hasLostResponsesSinceLastCall"):
    P.root("r", "c_" + n, "iox::popo::ClientPortUser::" + n)
for n in ("getRequest", "releaseRequest", "allocateResponse", "releaseResponse", "sendResponse", "releaseQueuedRequests", "hasNewRequests", "hasLostRequestsSinceLastCall"):
    P.root("r", "s_" + n, "iox::popo::ServerPortUser::" + n)
for n, c, m in (("h_seq", "RequestHeader", "setSequenceId"), ("h_getseq", "RpcBaseHeader", "getSequenceId"), ("h_err", "ResponseHeader", "setServerError"), ("h_haserr", "ResponseHeader", "hasServerError"),
                ("h_chunk", "RpcBaseHeader", "getChunkHeader"), ("h_payload", "RpcBaseHeader", "getUserPayload"), ("h_reqfrom", "RequestHeader", "fromPayload"), ("h_resfrom", "ResponseHeader", "fromPayload")):
    P.root("r", n, "iox::popo::%s::%s" % (c, m))

P.group("d", [D + "ports/client_port_user.cpp", D + "ports/server_port_user.cpp"],
        opaque=[r"^iox::mepoo::(SharedChunk|ShmSafeUnmanagedChunk)::", r"^iox::popo::(VariantQueue|ConditionNotifier)::", r"^iox::popo::(ThreadSafePolicy|SingleThreadedPolicy)::", r"^std::(find|find_if|__find_if)$"])
P.root("d", "getQueueIndex", "iox::popo::ChunkDistributor::getQueueIndex")

ALLOC, SEND, SENDTO, REL, QIX = (call(r"ChunkSender::" + n + "$") for n in ("tryAllocate", "send", "sendToQueue", "release", "getQueueIndex"))
QIX = call(r"Chunk(Sender|Distributor)::getQueueIndex$")
GET, RREL = call(r"ChunkReceiver::tryGet$"), call(r"ChunkReceiver::release$")
ANYOP = call(r"^iox::popo::Chunk(Sender|Receiver|Distributor|QueuePopper)::(?!getQueueIndex|has|empty)")
OTHER = lambda i: ANYOP(i) and not (ALLOC(i) or SEND(i) or SENDTO(i) or REL(i) or GET(i) or RREL(i))
EV = {"alloc": ALLOC, "send": SEND, "sendto": SENDTO, "rel": REL, "get": GET, "rrel": RREL, "other": OTHER}
HDR = r"userHeader\(.*\)"
RES = {"ret": r"^arg0(\.m_store\.data)?\.m_type_index$", "val": r"^arg0(\.m_store\.data)?\.m_storage(\.data)?$"}
HF = {"ver": HDR + r"\.m_rpcHeaderVersion$", "ix": HDR + r"\.m_lastKnownClientQueueIndex$", "id": HDR + r"\.m_uniqueClientQueueId(\.m_value)?$",
      "seq": HDR + r"\.m_sequenceId$", "err": HDR + r"\.m_hasServerError$"}
ARG = lambda n: nonnull(v_arg(n))


def val(f, r, n):
    v = r.lit.get(n)
    if v is None:
        return None
    v = res(f, v, r.st)
    return v.v if isinstance(v, Val) and v.k == "c" else v


def kind(f, r):
    return {0: "ok", 1: "err"}.get(val(f, r, "ret"), "?")


def is_load(f, v, rx):
    return isinstance(v, Ins) and re.search(rx, f.path(v)) is not None


def content(f, p):
    """access path of what the by-value argument p holds: the object itself or what the local was filled from"""
    r = f.root_of(p)
    if isinstance(r, Ins) and r.op == "alloca":
        out = set()
        for w in f.writers(r):
            if w.op == "store":
                out.add(f.path(w.ops[0]).lstrip("*"))
            elif w.op == "call" and len(w.ops) > 1 and (MEMCPY.search(w.callee or "") or f.root_of(w.ops[0]) is r):
                out.add(f.path(w.ops[1]).lstrip("*"))
        return out
    return {f.path(p).lstrip("*")}


def all_in(s, rx):
    return bool(s) and all(re.search(rx, x) for x in s)


def own(f, i, what):
    """the operation works on the port's own sender or receiver"""
    return any(re.search(r"^arg\d\.m_chunk(Sender|Receiver)\b", f.path(o)) for o in i.ops)


def chunk_of(f, i, header):
    """the chunk header argument is that of the presented request/response header"""
    return any(isinstance(f.strip(o), Ins) and f.strip(o).op == "call" and re.search(r"ChunkHeader::fromUserHeader$", f.strip(o).callee or "") and f.strip(f.strip(o).ops[-1]) == Val("arg", header) for o in i.ops)


def rows_of(f, lits, fields=None):
    return finals(f, dict(RES, **(fields or {})), EV, lits)


def ops(r):
    return tuple(r.ev)


SELFID = r"m_basePortDataPtr\.m_chunkReceiverData\.m_uniqueId(\.m_value)?$"


@P.rule("R1", "an allocated request or response has a complete routing header in the user header of the chunk just allocated; errors are forwarded and allocate nothing", min=16)
def r1(cx):
    for rid, size, hdr in (("c_allocateRequest", 24, None), ("s_allocateResponse", 32, 2)):
        f = cx.fn(rid)
        lits = {"ok": exp_ok(ALLOC, stable=True)}
        if hdr:
            lits["req"] = ARG(hdr)
        rows = rows_of(f, lits, HF)
        for i in matching(f, ALLOC):
            n = 3 if hdr is None else 4
            ids = content(f, i.ops[2])
            cx.ob(own(f, i, 0) and all_in(ids, r"m_basePortDataPtr\.m_uniqueId(\.m_value)?$"), f, "the chunk is allocated by the port's own sender in its own name", rid + "/origin", i)
            a0 = 2 if hdr is None else 3
            cx.ob(f.strip(i.ops[3]) == Val("arg", a0) and f.strip(i.ops[4]) == Val("arg", a0 + 1), f, "the requested payload size and alignment are allocated", rid + "/size", i)
            cx.ob(v_const(size)(f.strip(i.ops[5])) and v_const(8)(f.strip(i.ops[6])), f, "the chunk has room for the header", rid + "/header", i)
        req_some(cx, f, matching(f, ALLOC), "chunks are allocated", rid + "/allocates")
        ok = [r for r in rows if kind(f, r) == "ok"]
        req_some(cx, f, ok, "allocation can succeed", rid + "/succeeds")
        req_some(cx, f, [r for r in rows if r.lit.get("ok") is False], "a failed allocation is reported", rid + "/fails")
        if hdr:
            req_some(cx, f, [r for r in rows if r.lit.get("req") is False], "a missing request is reported", rid + "/missing")
        check_rows(cx, f, rows, lambda r: kind(f, r) in ("ok", "err"), "a result is returned", rid + "/result")
        check_rows(cx, f, rows, lambda r: (kind(f, r) == "ok") == (r.lit.get("ok") is True), "the result says whether a chunk was allocated", rid + "/iff")
        check_rows(cx, f, rows, lambda r: ops(r) == (("alloc",) if (hdr is None or r.lit.get("req")) else ()), "exactly one chunk is allocated (none without a request)", rid + "/once")
        check_rows(cx, f, rows, lambda r: kind(f, r) != "err" or (val(f, r, "val") == 5 if hdr and not r.lit.get("req") else is_load(f, val(f, r, "val"), r"^\*\$expected")), "the error is forwarded", rid + "/error")
        check_rows(cx, f, ok, lambda r: is_load(f, val(f, r, "val"), r"^(iox::mepoo::)?ChunkHeader::userHeader\(\*\$expected|userHeader\(\*\$expected"), "the header inside the allocated chunk is returned", rid + "/value")
        if hdr is None:
            check_rows(cx, f, ok, lambda r: is_load(f, val(f, r, "id"), SELFID), "a request names its client's own queue", rid + "/id")
            check_rows(cx, f, ok, lambda r: val(f, r, "ix") == 0xFFFFFFFF, "the queue index starts unknown", rid + "/ix")
            check_rows(cx, f, ok, lambda r: val(f, r, "seq") == 0, "the sequence id starts at 0", rid + "/seq")
        else:
            check_rows(cx, f, ok, lambda r: is_load(f, val(f, r, "id"), r"^\**arg2\.m_uniqueClientQueueId(\.m_value)?$"), "a response names the queue of its request", rid + "/id")
            check_rows(cx, f, ok, lambda r: is_load(f, val(f, r, "ix"), r"^\**arg2\.m_lastKnownClientQueueIndex$") or val(f, r, "ix") == 0xFFFFFFFF, "a response takes over the queue index hint", rid + "/ix")
            check_rows(cx, f, ok, lambda r: is_load(f, val(f, r, "seq"), r"^\**arg2\.m_sequenceId$"), "a response carries the sequence id of its request", rid + "/seq")
            check_rows(cx, f, ok, lambda r: val(f, r, "err") == 0, "the server error flag starts cleared", rid + "/err")
        check_rows(cx, f, ok, lambda r: val(f, r, "ver") == 1, "the header version is set", rid + "/ver")


@P.rule("R2", "sending a request or response hands over the chunk exactly once: delivered, or freed with an error that says why", min=14)
def r2(cx):
    f = cx.fn("c_sendRequest")
    req = truth_of(v_path(r"m_basePortDataPtr\.m_connectRequested"))
    n0 = equals(lambda v: isinstance(v, Ins) and SEND(v), v_const(0))
    rows = rows_of(f, {"hdr": ARG(2), "conn": req, "none": n0})

    def spec(r):
        if r.lit.get("hdr") is False:
            return ops(r) == () and (kind(f, r), val(f, r, "val")) == ("err", 2)
        if r.lit.get("conn") is None:
            return False
        if not r.lit["conn"]:
            return ops(r) == ("rel",) and (kind(f, r), val(f, r, "val")) == ("err", 0)
        if r.lit.get("none") is None:
            return False
        return ops(r) == ("send",) and (kind(f, r) == "ok" if not r.lit["none"] else (kind(f, r), val(f, r, "val")) == ("err", 1))
    check_rows(cx, f, rows, spec, "no request: error; not connected: freed once; otherwise sent once, and an error iff nobody got it", "c_send/table")
    for n, k in (("hdr", (True, False)), ("conn", (True, False)), ("none", (True, False))):
        for t in k:
            req_some(cx, f, [r for r in rows if r.lit.get(n) is t], "sendRequest distinguishes %s" % n, "c_send/" + n)
    for i in matching(f, lambda i: SEND(i) or REL(i)):
        cx.ob(own(f, i, 0) and chunk_of(f, i, 2), f, "the chunk of the given request is handed over", "c_send/chunk", i)

    f = cx.fn("s_sendResponse")
    off = truth_of(v_path(r"m_basePortDataPtr\.m_offeringRequested"))
    found = opt_has(QIX)
    found.stable = True
    sent = truth_of(lambda v: isinstance(v, Ins) and SENDTO(v))
    rows = rows_of(f, {"hdr": ARG(2), "off": off, "found": found, "sent": sent}, {"ix": r"^arg2\.m_lastKnownClientQueueIndex$"})

    def spec2(r):
        k = (kind(f, r), val(f, r, "val"))
        if r.lit.get("hdr") is False:
            return ops(r) == () and k == ("err", 2)
        if r.lit.get("off") is None:
            return False
        if not r.lit["off"]:
            return ops(r) == ("rel",) and k == ("err", 0)
        if r.lit.get("found") is None:
            return False
        if not r.lit["found"]:
            return ops(r) == ("rel",) and k == ("err", 1)
        if r.lit.get("sent") is None:
            return False
        return ops(r) == ("sendto",) and (k[0] == "ok" if r.lit["sent"] else k == ("err", 1))
    check_rows(cx, f, rows, spec2, "no response: error; not offered or client gone: freed once; otherwise sent once to the client, and an error iff it was not delivered", "s_send/table")
    for n in ("hdr", "off", "found", "sent"):
        for t in (True, False):
            req_some(cx, f, [r for r in rows if r.lit.get(n) is t], "sendResponse distinguishes %s" % n, "s_send/" + n)
    for i in matching(f, lambda i: SENDTO(i) or REL(i)):
        cx.ob(own(f, i, 0) and chunk_of(f, i, 2), f, "the chunk of the given response is handed over", "s_send/chunk", i)
    ID = r"^arg2\.m_uniqueClientQueueId(\.m_value)?$"
    for i in matching(f, QIX):
        cx.ob(own(f, i, 0) and all_in(content(f, i.ops[2]), ID), f, "the queue is looked up by the id in the response", "s_send/lookup", i)
    for i in matching(f, SENDTO):
        ix = f.path(i.ops[3])
        cx.ob(all_in(content(f, i.ops[2]), ID) and re.search(r"\$optional|^\*arg2\.m_lastKnownClientQueueIndex$|getQueueIndex\(", ix) is not None, f, "the response goes to the queue with the id in the response, at the index found", "s_send/target", i)


@P.rule("R3", "received requests and responses are the user header of the chunk taken; errors are told apart and nothing is taken without being returned", min=8)
def r3(cx):
    for rid in ("c_getResponse", "s_getRequest"):
        f = cx.fn(rid)
        off = truth_of(v_path(r"m_basePortDataPtr\.m_offeringRequested"))
        rows = rows_of(f, {"ok": exp_ok(GET, stable=True), "off": off})
        req_some(cx, f, [r for r in rows if r.lit.get("ok") is False], "an empty queue is reported", rid + "/none")
        req_some(cx, f, [r for r in rows if r.lit.get("ok") is True], "a chunk can be taken", rid + "/taken")
        check_rows(cx, f, rows, lambda r: ops(r) == ("get",), "one chunk is taken from the queue", rid + "/once")
        check_rows(cx, f, rows, lambda r: kind(f, r) == ("ok" if r.lit.get("ok") else "err"), "the result says whether a chunk was taken", rid + "/iff")
        check_rows(cx, f, [r for r in rows if kind(f, r) == "ok"], lambda r: is_load(f, val(f, r, "val"), r"userHeader\(\*\$expected"), "the header of the chunk taken is returned", rid + "/value")
        if rid == "c_getResponse":
            check_rows(cx, f, [r for r in rows if kind(f, r) == "err"], lambda r: is_load(f, val(f, r, "val"), r"^\*\$expected"), "the error is forwarded", rid + "/error")
        else:
            check_rows(cx, f, [r for r in rows if kind(f, r) == "err"], lambda r: r.lit.get("off") is not None and (val(f, r, "val") == 3 if not r.lit["off"] else is_load(f, val(f, r, "val"), r"into\(\*\$expected|^\*\$expected")),
                       "an error tells that the server does not offer, or is the one of the queue", rid + "/error")
        for i in matching(f, GET):
            cx.ob(own(f, i, 0), f, "chunks come from the port's own queue", rid + "/own", i)


@P.rule("R4", "releasing gives up the chunk of the given header once, on the side that owns it; without a header nothing happens; clearing empties the own queue", min=10)
def r4(cx):
    for rid, ev in (("c_releaseRequest", "rel"), ("c_releaseResponse", "rrel"), ("s_releaseRequest", "rrel"), ("s_releaseResponse", "rel")):
        f = cx.fn(rid)
        rows = table(f, EV, {"hdr": ARG(1)})
        check_rows(cx, f, rows, lambda r: r.lit.get("hdr") is not None and ops(r) == ((ev,) if r.lit["hdr"] else ()), "the chunk is released exactly when there is one", rid + "/table")
        req_some(cx, f, [r for r in rows if r.lit.get("hdr")], "chunks are released", rid + "/some")
        for i in matching(f, EV[ev]):
            cx.ob(own(f, i, 0) and chunk_of(f, i, 1), f, "the chunk of the given header is released", rid + "/chunk", i)
    for rid, rx, neg in (("c_releaseQueuedResponses", r"Chunk(Receiver|QueuePopper)::clear$", None), ("s_releaseQueuedRequests", r"Chunk(Receiver|QueuePopper)::clear$", None),
                         ("c_hasNewResponses", r"::empty$", True), ("s_hasNewRequests", r"::empty$", True),
                         ("c_hasLostResponsesSinceLastCall", r"::hasLostChunks$", False), ("s_hasLostRequestsSinceLastCall", r"::hasLostChunks$", False)):
        f = cx.fn(rid)
        c = call(rx, (0, r"^arg0\.m_chunkReceiver\b"))
        on_all_returns(cx, f, c, "%s acts on the own queue" % rid, rid)
        if neg is not None:
            rows = bool_rows(f, {}, {"x": truth_of(c)})
            check_rows(cx, f, rows, lambda r: r.lit["ret"] == ("is", "x", not neg) or (r.lit["ret"] is True and r.lit.get("x") is (not neg)) or (r.lit["ret"] is False and r.lit.get("x") is neg), "the answer is that of the own queue", rid + "/answer")


@P.rule("R5", "header accessors: the sequence id and error flag set are those read; headers and payloads are found through the chunk they lie in", min=8)
def r5(cx):
    f = cx.fn("h_seq")
    rows = finals(f, {"s": r"^arg0\.m_sequenceId$"})
    check_rows(cx, f, rows, lambda r: r.lit["s"] == Val("arg", 1), "the given sequence id is stored", "seq")
    f = cx.fn("h_err")
    rows = finals(f, {"s": r"^arg0\.m_hasServerError$"})
    check_rows(cx, f, rows, lambda r: val(f, r, "s") == 1, "the error flag is set", "err")
    for rid, rx in (("h_getseq", r"^\*arg0\.m_sequenceId$"), ("h_haserr", r"^\*arg0\.m_hasServerError$")):
        f = cx.fn(rid)
        for i in matching(f, is_ret):
            cx.ob(re.search(rx, f.path(i.ops[0])) is not None, f, "the stored value is returned", rid, i)
    for rid in ("h_chunk", "h_payload", "h_reqfrom", "h_resfrom"):
        for f in cx.fns(rid):
            for i in matching(f, is_ret):
                for r in table(f, {}, {}):
                    v = f.ret_value(r.ret, r.st)
                    p = f.path(v)
                    if rid == "h_chunk":
                        ok = re.search(r"fromUserHeader\(arg0\)$", p)
                    elif rid == "h_payload":
                        ok = re.search(r"userPayload\(.*fromUserHeader\(arg0\)\)$", p)
                    else:
                        ok = isnull(v) or re.search(r"userHeader\(.*fromUserPayload\(arg0\)\)$", p)
                    cx.ob(ok, f, "found through the chunk header", rid, i)
                if rid in ("h_reqfrom", "h_resfrom"):
                    rows = table(f, {"h": call(r"ChunkHeader::userHeader$")}, {"c": nonnull(lambda v: isinstance(v, Ins) and v.op == "call" and (v.callee or "").endswith("fromUserPayload"))})
                    check_rows(cx, f, rows, lambda r: r.n("h") == (1 if r.lit.get("c") else 0) and isnull(f.ret_value(r.ret, r.st)) == (not r.lit.get("c")), "a header is found iff there is a chunk", rid + "/iff")


@P.rule("R6", "the lookup of a client's queue finds the queue with the id wherever it is connected and returns its index, or nothing", min=3)
def r6(cx):
    QS = r"\.m_queues$"
    for f in cx.fns("getQueueIndex"):
        if matching(f, call(r"^std::(find|find_if|__find_if)$")):
            continue  # library search over the list
        lock, unlock = call(r"Policy::lock$", (0, r"DataPtr$")), call(r"Policy::unlock$", (0, r"DataPtr$"))
        acc = [i for i in f.ins() if i.op in ("load", "call") and not re.search(r"computeRawPtr$|::getRelocatable|RelativePointer", i.callee or "") and any(re.search(r"\.m_queues(\.|$|\[)", f.path(o)) for o in i.ops)]
        req_some(cx, f, acc, "the queues are looked at", "lock/some")
        for i in acc:
            w = held(f, lock, unlock, i)
            cx.ob(w is None, f, "the list of queues is only looked at with the lock held", "lock/held", i, w)
        w = balanced(f, lock, unlock)
        cx.ob(w is None, f, "the lock is released", "lock/balanced", None, w)
        isid = lambda x: isinstance(x, Ins) and x.op == "load" and re.search(r"\.m_uniqueId(\.m_value)?$", f.addr(x)) is not None
        isarg = lambda x: isinstance(x, Ins) and re.search(r"^\*arg2(\.m_value)?$", f.path(x)) is not None or x == Val("arg", 2)
        hit = equals(isid, isarg)
        found = holds(hit, True)
        some = [i for i in f.stores(r"^arg0\.m_hasValue$") if v_const(1)(f.strip(i.ops[0]))]
        req_some(cx, f, some, "a queue can be found", "some")
        for i in some:
            req_guard(cx, f, i, found, "only a queue with the requested id is found", "id")
        elems = {}
        for b, sc, dnf, t in f.edges():
            for cj in dnf:
                for k, pol in cj:
                    if hit(k, pol) is not None:
                        l = k[1] if isid(k[1]) else k[2]
                        p = l.ops[0]
                        n = 0
                        while isinstance(f.strip(p), Ins) and f.strip(p).op in ("field", "getelementptr") and n < 20:
                            p, n = f.strip(p).ops[0], n + 1
                        p = f.strip(p)
                        if isinstance(p, Ins) and p.op == "call":  # the pointer object is resolved
                            elems[l.id] = (l, p.ops[0] if re.search(r"computeRawPtr$|operator->$|::get$", p.callee or "") else p)
        loops = [(l, p, covers_vec(f, l, p, QS, found)) for l, p in elems.values() if (vec_elem(f, p, QS) or ("any",))[0] in ("it", "ix")]
        cx.ob(bool(loops) and all(w is None for l, p, w in loops), f, "every connected queue is compared before the lookup fails%s" % "".join(" (%s)" % w for l, p, w in loops if w), "all")
        inloop = {l.id for l, p, w in loops}
        w = f.search(None, is_ret, lambda i: i in some or i.id in inloop, lambda k, pol: k[0] == "eq" and pol and any(isinstance(x, Ins) and x.op == "call" and re.search(r"::(end|size|begin)$", x.callee or "") for x in k[1:3]) or
                     (k[0] in ("ult", "slt") and not pol and any(isinstance(x, Ins) and x.op == "call" and re.search(r"::size$", x.callee or "") for x in k[1:3])))
        cx.ob(w is None, f, "nothing is returned only after the search", "none", None, w)
        for i in f.stores(r"^arg0\.m_data"):
            v = f.strip(i.ops[0])
            bad = None

            def match(k, pol, v=v):
                if hit(k, pol) is not True:
                    return False
                l = k[1] if isid(k[1]) else k[2]
                p = elems.get(l.id, (None, None))[1]
                if p is None:
                    return False
                p = f.strip(p)
                if isinstance(p, Ins) and p.op == "call" and re.search(r"::(operator\[\]|at)$", p.callee or ""):
                    return same(f, p.ops[1], v) or twins(f, f.strip(p.ops[1]), v)
                if isinstance(p, Ins) and p.op == "phi" and isinstance(v, Ins) and v.op == "phi" and v.blk == p.blk:
                    fr, fv = p.d.get("from"), v.d.get("from")
                    for b, x in zip(fv, v.ops):
                        y = f.strip(p.ops[fr.index(b)])
                        beg = isinstance(y, Ins) and y.op == "call"
                        if not (v_const(0)(f.strip(x)) if beg else f.affine(x) == {("v", v.id): 1, 1: 1}):
                            return False
                    return True
                return f.mentions(v, r"::begin$")
            req_guard(cx, f, i, match, "the index returned is that of the queue found", "index")

