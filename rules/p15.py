import os
from engine.core import Prop
from rules.lib import *

P = Prop("P15")
P.explain = """
Ownership of each loaned or taken chunk is followed through every path of the user API (smart pointers, optionals and results as
memory cells): it is created with the payload just obtained and a deleter for the own port, moved, and ends in the returned object or in
exactly one hand-over.  The smart pointer and the deleters are decided separately from final-value tables."""
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "raii.cpp")
PORTS = [r"^iox::popo::(Publisher|Subscriber|Client|Server)PortUser::", r"^iox::mepoo::ChunkHeader::", r"^iox::popo::(Request|Response)Header::fromPayload$", r"^iox::runtime::", r"^iox::popo::BasePort::"]
P.group("u", [DRV], opaque=PORTS)
N = "iox::popo::"
for c, ns in (("UntypedPublisherImpl", ("loan", "publish", "release")), ("UntypedSubscriberImpl", ("take", "release")),
              ("UntypedClientImpl", ("loan", "releaseRequest", "send", "take", "releaseResponse")), ("UntypedServerImpl", ("take", "releaseRequest", "loan", "send", "releaseResponse"))):
    for n in ns:
        P.root("u", c + "_" + n, N + c + "::" + n)
P.group("t", [DRV], opaque=PORTS + [r"^iox::unique_ptr::", r"^iox::(storable_)?function::", r"^iox::storable_function::"])
for c, ns in (("PublisherImpl", ("loanSample", "publish", "publishCopyOf", "publishResultOf", "loan")), ("SubscriberImpl", ("take",)), ("ClientImpl", ("loanUninitialized", "loan", "send", "take")), ("ServerImpl", ("take", "loanUninitialized", "loan", "send")),
              ("Sample", ("publish",)), ("Request", ("send",)), ("Response", ("send",))):
    for n in ns:
        P.root("t", c + "_" + n, N + c + "::" + n)
P.group("p", [DRV], opaque=[r"^iox::(storable_)?function::", r"^iox::storable_function::"])
for n in ("unique_ptr", "operator=", "~unique_ptr", "get", "operator->", "release", "swap"):
    P.root("p", "up_" + n, "iox::unique_ptr::" + n)
P.group("f", [DRV], opaque=PORTS)
for n in ("invoke",):
    P.root("f", "fn_" + n, "iox::storable_function::" + n)

EXPT, EXPV = re.compile(EXP_TAG), re.compile(r"^arg0(\.m_store\.data)?\.m_storage(\.data)?$")
PORT = call(r"^iox::popo::(Publisher|Subscriber|Client|Server)PortUser::(?!BasePort|get(UniqueID|CaPro))")
UP = r"^iox::unique_ptr::"
virt = lambda i: i.op == "call" and not i.callee


def is_dtor(i):
    return re.search(r"^iox::unique_ptr::~unique_ptr$", i.callee or "") is not None


def hook(sim, st, i):
    """ownership cells: ('own', object, offset) -> payload"""
    f = sim.f
    if i.op == "store":
        p = f.addr(i)
        if EXPT.search(p):
            v = sim.val(i.ops[0], st)
            st["tag"] = v if isinstance(v, int) else "?"
        elif EXPV.search(p):
            st["val"] = sim._keep(i.ops[0], st)
        return
    if i.op != "call":
        return
    c = i.callee or ""
    if c == "iox::unique_ptr::unique_ptr":
        d = sim.loc(i.ops[0], st)
        if len(i.ops) >= 3:
            st[("own",) + d] = f.strip(i.ops[1])
            st["fn"] = f.root_of(i.ops[2])
        else:
            s = sim.loc(i.ops[1], st)
            v = st.pop(("own",) + s, None)
            if v is not None:
                st[("own",) + d] = v
    elif is_dtor(i):
        if st.pop(("own",) + sim.loc(i.ops[0], st), None) is not None:
            st["ev"] = st.get("ev", ()) + ("deleted",)
    elif c == "iox::unique_ptr::release":
        st.pop(("own",) + sim.loc(i.ops[0], st), None)
        st["ev"] = st.get("ev", ()) + ("released",)
    elif c == "iox::unique_ptr::operator=":
        s, d = sim.loc(i.ops[1], st), sim.loc(i.ops[0], st)
        if st.pop(("own",) + d, None) is not None:
            st["ev"] = st.get("ev", ()) + ("deleted",)
        v = st.pop(("own",) + s, None)
        if v is not None:
            st[("own",) + d] = v
    elif virt(i) and len(i.ops) >= 2:
        # hand-over through the producer interface: empties the object passed
        l = [sim.loc(o, st) for o in i.ops]
        for k in [k for k in st if isinstance(k, tuple) and k[0] == "own" and any(x and x[0] == k[1] for x in l)]:
            st["given"] = st.pop(k)


def owners(r):
    return [(k[1], v) for k, v in r.st.items() if isinstance(k, tuple) and k[0] == "own"]


def runs(f, events, lits=None):
    s = Sim(f, {}, events, lits or {}, hook=hook)
    return s, s.run({})


def payload_of(f, v, op):
    """v is the user payload of the chunk delivered by the port call"""
    p = f.path(v)
    return re.search(r"userPayload\((.*fromUserHeader\()?\*\$expected", p) is not None


def fwd_error(f, r):
    v = r.st.get("val")
    return isinstance(v, Ins) and re.search(r"^\*\$expected", f.path(v)) is not None


CREATE = (("PublisherImpl_loanSample", "tryAllocateChunk", None), ("PublisherImpl_loan", "tryAllocateChunk", "init"), ("SubscriberImpl_take", "tryGetChunk", None),
          ("ClientImpl_loanUninitialized", "allocateRequest", None), ("ClientImpl_loan", "allocateRequest", "init"), ("ClientImpl_take", "getResponse", None),
          ("ServerImpl_take", "getRequest", None), ("ServerImpl_loanUninitialized", "allocateResponse", None), ("ServerImpl_loan", "allocateResponse", "init"))
INIT = lambda i: (i.op == "store" and re.search(r"(unique_ptr::)?get\(", i.fn.addr(i)) is not None) or \
    (i.op == "call" and i.callee and i.ops and re.search(r"^(unique_ptr::)?get\(", i.fn.path(i.ops[0])) is not None and (MEMCPY.search(i.callee) is not None or re.search(r"memset|^(\w+::)*(\w+)::\2$", i.callee) is not None))


@P.rule("R1", "loaning and taking obtain one chunk and return it in an owner of exactly its payload with a deleter for the own endpoint; errors are forwarded and leave nothing behind", min=40)
def r1(cx):
    for rid, op, init in CREATE:
        c = call(r"PortUser::%s$" % op)
        for f in cx.fns(rid):
            s, rows = runs(f, {"port": PORT, "init": INIT}, {"ok": exp_ok(c, stable=True)})
            tag = rid
            req_some(cx, f, matching(f, c), "%s uses the port" % rid, tag + "/port")
            check_rows(cx, f, rows, lambda r: r.n("port") == 1, "one chunk is obtained, nothing else is done with the port", tag + "/once")
            check_rows(cx, f, rows, lambda r: r.st.get("tag") in (0, 1) and (r.st["tag"] == 0) == (r.lit.get("ok") is True), "the result tells whether a chunk was obtained", tag + "/iff")
            ok = [r for r in rows if r.st.get("tag") == 0]
            req_some(cx, f, ok, "a chunk can be obtained", tag + "/some")
            check_rows(cx, f, ok, lambda r: len(owners(r)) == 1 and owners(r)[0][0] == "arg0" and not r.n("deleted") and not r.n("released"), "the returned object owns the chunk", tag + "/owner")
            check_rows(cx, f, ok, lambda r: all(payload_of(f, v, op) for o, v in owners(r)), "the owner holds the payload of the chunk obtained", tag + "/payload")
            check_rows(cx, f, ok, lambda r: deleter_ok(f, r.st.get("fn")), "the deleter belongs to this endpoint", tag + "/deleter")
            check_rows(cx, f, [r for r in rows if r.st.get("tag") == 1], lambda r: not owners(r) and fwd_error(f, r), "the error of the port is forwarded", tag + "/error")
            if init:
                check_rows(cx, f, ok, lambda r: r.n("init") >= 1, "the payload is constructed", tag + "/init")
            for i in matching(f, c):
                cx.ob(re.search(r"^arg1\.m_port$", f.path(i.ops[1])) is not None, f, "the own port is used", tag + "/own", i)
                if op in ("tryAllocateChunk", "allocateRequest", "allocateResponse"):
                    sizes(cx, f, i, op, tag)
                if op == "allocateResponse":
                    cx.ob(re.search(r"userHeader\(.*fromUserPayload\((unique_ptr::)?get\(arg2\.", f.path(i.ops[2])) is not None, f, "the response belongs to the given request", tag + "/request", i)


def deleter_ok(f, fn):
    """the functor stored in the deleter captures this endpoint"""
    if not isinstance(fn, Ins):
        return False
    for w in f.writers(fn):
        if w.op == "call" and re.search(r"storable_function::storable_function$", w.callee or "") and f.root_of(w.ops[0]) is fn:
            r = f.root_of(w.ops[1])
            if isinstance(r, Ins) and r.op == "alloca":
                return any(x.op == "store" and f.strip(x.ops[0]) == Val("arg", 1) for x in f.writers(r)) or \
                    any(x.op == "call" and any(f.strip(o) == Val("arg", 1) for o in x.ops) for x in f.writers(r))
    return False


def sizes(cx, f, i, op, tag):
    a = [f.strip(x) for x in i.ops]
    n = [x.v if isinstance(x, Val) and x.k == "c" else None for x in a]
    if op == "tryAllocateChunk":
        hdr = (re.search(r"PublisherImpl<Data, (iox::mepoo::)?(\w+)", f.full or "") or [None, None, ""])[2] == "Hdr"
        cx.ob(n[2:4] == [16, 8] and n[4] == (12 if hdr else 0) and n[5] == (4 if hdr else 1), f, "size and alignment of payload and user header are those of the types", tag + "/sizes", i)
    elif op == "allocateRequest":
        cx.ob(n[2:4] == [16, 8], f, "size and alignment are those of the request type", tag + "/sizes", i)
    else:
        cx.ob(n[3:5] == [40, 8], f, "size and alignment are those of the response type", tag + "/sizes", i)


@P.rule("R2", "publishing and sending take the chunk out of the owner first, hand it to the own port exactly once and forward the result", min=16)
def r2(cx):
    for rid, op in (("PublisherImpl_publish", "sendChunk"), ("ClientImpl_send", "sendRequest"), ("ServerImpl_send", "sendResponse")):
        c = call(r"PortUser::%s$" % op)
        for f in cx.fns(rid):
            if not any(PORT(i) for i in f.ins()) and not matching(f, call(UP + "release$")):
                th = matching(f, call(r"::(publish|send)$"))
                cx.ob(len(th) == 1, f, "the interface function forwards to the implementation", rid + "/thunk")
                continue
            s, rows = runs(f, {"port": PORT})
            check_rows(cx, f, rows, lambda r: r.n("port") == 1 and r.n("released") == 1 and r.before("released", "port"), "the owner gives up the chunk, then it is sent once", rid + "/once")
            k = 0 if op == "sendChunk" else 1
            for i in matching(f, c):
                p = f.path(i.ops[-1])
                want = r"fromUserPayload\((unique_ptr::)?release\(arg%d\b" % (k + 1)
                cx.ob(re.search(want, p) is not None and (op == "sendChunk" or re.search(r"userHeader\(|fromPayload\(", p) is not None) and re.search(r"\.m_port$", f.path(i.ops[k])) is not None, f, "the released chunk goes to the own port", rid + "/chunk", i)
                if k:
                    cx.ob(f.strip(i.ops[0]) == Val("arg", 0) or any(MEMCPY.search(x.callee or "") and f.path(x.ops[0]) == "arg0" for x in f.ins() if x.op == "call"), f, "the result is forwarded", rid + "/result", i)
            req_some(cx, f, matching(f, c), "the chunk is handed to the port", rid + "/port")
            hv = finals(f, {"h": r"smartChunkUniquePtr\.m_hasValue$"}, {}, {"has": truth_of(v_path(r"smartChunkUniquePtr\.m_hasValue$"))})
            check_rows(cx, f, hv, lambda r: isnull(r.lit["h"]) if r.lit["h"] is not None else r.lit.get("has") is False, "the owner is empty afterwards", rid + "/empty")
    for rid, err in (("Sample_publish", None), ("Request_send", 2), ("Response_send", 2)):
        for f in cx.fns(rid):
            me = 0 if err is None else 1
            has = truth_of(v_path(r"^\**arg%d\.m_members\.smartChunkUniquePtr\.m_hasValue$" % me))
            s, rows = runs(f, {"virt": virt}, {"has": has})
            check_rows(cx, f, rows, lambda r: r.lit.get("has") is not None and r.n("virt") == (1 if r.lit["has"] else 0), "the producer is called exactly when there is a chunk", rid + "/iff")
            req_some(cx, f, [r for r in rows if r.n("virt")], "the producer is called", rid + "/some")
            if err is not None:
                check_rows(cx, f, [r for r in rows if r.lit.get("has") is False], lambda r: r.st.get("tag") == 1 and isinstance(r.st.get("val"), Val) and r.st["val"].v == err, "an empty object is reported", rid + "/error")
            for i in matching(f, virt):
                cx.ob(any(re.search(r"arg%d\.m_members\.producerRef" % me, f.path(o)) for o in i.ops) and any(f.strip(o) == Val("arg", me) for o in i.ops), f, "the object is given to its producer", rid + "/producer", i)


@P.rule("R3", "publishing a copy or a computed result initialises the payload, then publishes it exactly once; on allocation failure nothing is published", min=8)
def r3(cx):
    c = call(r"PortUser::tryAllocateChunk$")
    for rid in ("PublisherImpl_publishCopyOf", "PublisherImpl_publishResultOf"):
        for f in cx.fns(rid):
            s, rows = runs(f, {"port": PORT, "init": INIT, "virt": virt}, {"ok": exp_ok(c, stable=True)})
            check_rows(cx, f, rows, lambda r: r.n("port") == 1 and not owners(r) and not r.n("deleted"), "one chunk is obtained and nothing is left behind or dropped", rid + "/port")
            check_rows(cx, f, rows, lambda r: (r.st.get("tag") == 0) == (r.lit.get("ok") is True), "the result tells whether it was published", rid + "/iff")
            check_rows(cx, f, [r for r in rows if r.lit.get("ok")], lambda r: r.n("virt") == 1 and r.st.get("given") is not None and r.before("init", "virt") and r.n("init") >= 1, "the payload is written before it is published once", rid + "/publish")
            check_rows(cx, f, [r for r in rows if not r.lit.get("ok")], lambda r: r.n("virt") == 0 and fwd_error(f, r), "nothing is published without a chunk", rid + "/error")
            req_some(cx, f, [r for r in rows if r.lit.get("ok")], "publishing can succeed", rid + "/some")
            for i in matching(f, c):
                sizes(cx, f, i, "tryAllocateChunk", rid)
            if rid.endswith("CopyOf"):
                for i in matching(f, lambda i: INIT(i) and i.op == "call" and MEMCPY.search(i.callee or "")):
                    cx.ob(f.strip(i.ops[1]) == Val("arg", 2) and f.strip(i.ops[2]) == Val("c", 16), f, "the given value is copied completely", rid + "/copy", i)


REL = {("Publisher", "releaseChunk", False), ("Subscriber", "releaseChunk", True), ("Client", "releaseRequest", False), ("Client", "releaseResponse", True), ("Server", "releaseRequest", True), ("Server", "releaseResponse", False)}


@P.rule("R4", "a deleter releases the chunk of its payload exactly once through the port it came from", min=7)
def r4(cx):
    seen = set()
    for f in cx.fns("fn_invoke"):
        if not any(PORT(i) for i in f.ins()):
            continue
        const = re.search(r"void \((\w+) const\*\)", f.full or "") is not None
        rows = table(f, {"port": PORT})
        check_rows(cx, f, rows, lambda r: r.ev == ("port",), "one port operation", "once")
        for i in matching(f, PORT):
            m = re.search(r"(\w+)PortUser::(\w+)$", i.callee)
            seen.add((m.group(1), m.group(2), const))
            p = f.path(i.ops[1])
            cx.ob((m.group(1), m.group(2), const) in REL, f, "the deleter releases on the side that owns the chunk", "side", i)
            cx.ob(re.search(r"from(User)?Payload\(\**arg1\)", p) is not None and re.search(r"\barg0\b.*\.m_port$", f.path(i.ops[0])) is not None, f, "the chunk of the payload is released through the captured endpoint", "chunk", i)
    f0 = cx.fns("fn_invoke")[0]
    for x in sorted(REL):
        cx.ob(x in seen, f0, "there is a deleter calling %sPortUser::%s" % x[:2], "all")


@P.rule("R5", "the smart pointer calls its deleter exactly once per owned object: on destruction and replacement, never after release or move", min=20)
def r5(cx):
    F = {"p": r"^arg0\.m_ptr$", "q": r"^arg1\.m_ptr$", "d": r"^arg0\.m_deleter$", "e": r"^arg1\.m_deleter$"}
    dele = call(r"storable_function::operator\(\)$")
    nn = lambda n: nonnull(v_path(r"^\*arg%d\.m_ptr$" % n))
    for f in cx.fns("up_unique_ptr"):
        rows = finals(f, F, {"del": dele})
        check_rows(cx, f, rows, lambda r: not r.n("del"), "construction deletes nothing", "ctor/del")
        if len([a for a in re.findall(r",", re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>", "", f.full or ""))]) or "storable_function" in (f.full or ""):
            check_rows(cx, f, rows, lambda r: r.lit["p"] == Val("arg", 1) and from_path(f, r.lit["d"], r"^arg2$"), "object and deleter are stored", "ctor")
        else:
            check_rows(cx, f, rows, lambda r: from_path(f, r.lit["p"], r"^arg1\.m_ptr$") and from_path(f, r.lit["d"], r"^arg1\.m_deleter$") and r.lit["q"] is not None and isnull(r.lit["q"]), "ownership moves to the new object", "move")
    for f in cx.fns("up_operator="):
        diff = equals(v_arg(0), v_arg(1))
        rows = finals(f, F, {"del": dele, "wp": lambda i: i.op == "store" and re.search(r"^arg0\.m_ptr$", f.addr(i)) is not None and not isnull(f.strip(i.ops[0])), "wd": lambda i: i.op == "call" and re.search(r"storable_function::operator=$", i.callee or "") is not None}, {"self": diff, "has": nn(0)})

        def spec(r):
            if r.lit.get("self"):
                return not r.n("del") and r.lit["p"] is None and r.lit["q"] is None
            if r.lit.get("has") is None or r.lit.get("self") is None:
                return False
            return r.n("del") == (1 if r.lit["has"] else 0) and r.before("del", "wp") and r.before("del", "wd") and from_path(f, r.lit["p"], r"^arg1\.m_ptr$") and from_path(f, r.lit["d"], r"^arg1\.m_deleter$") and r.lit["q"] is not None and isnull(r.lit["q"])
        check_rows(cx, f, rows, spec, "assignment deletes the old object with its own deleter and takes over the new one; self-assignment changes nothing", "assign")
    for f in cx.fns("up_~unique_ptr"):
        rows = finals(f, F, {"del": dele, "fd": call(r"~storable_function$")}, {"has": nn(0)})
        check_rows(cx, f, rows, lambda r: r.lit.get("has") is not None and r.n("del") == (1 if r.lit["has"] else 0) and r.before("del", "fd"), "the owned object is deleted exactly once", "dtor")
    for rid in ("up_operator=", "up_~unique_ptr"):
        for f in cx.fns(rid):
            for i in matching(f, dele):
                cx.ob(re.search(r"^arg0\.m_deleter$", f.path(i.ops[0])) is not None and re.search(r"^\*arg0\.m_ptr$", f.path(i.ops[1])) is not None, f, "the own deleter gets the owned object", "deleter", i)
    for f in cx.fns("up_release"):
        s = Sim(f, {}, {"del": dele})
        rows = s.run({})
        check_rows(cx, f, rows, lambda r: not r.n("del"), "a released object is not deleted", "release")
        rows = finals(f, {"p": r"^arg0\.m_ptr$"})
        check_rows(cx, f, rows, lambda r: r.lit["p"] is not None and isnull(r.lit["p"]), "the pointer is empty after release", "release/empty")
        for i in matching(f, is_ret):
            v = f.strip(i.ops[0])
            st = s.run({})[0].st if s.run({}) else {}
            x = s._keep(v, st) if isinstance(v, Ins) else v
            x = st.get(("lv", v.id), v) if isinstance(v, Ins) and v.op == "load" else x
            cx.ob(isinstance(x, Ins) and re.search(r"^\*arg0\.m_ptr$", f.path(x)) is not None, f, "the owned object is returned", "release/value", i)
    for f in cx.fns("up_swap"):
        rows = finals(f, F)
        check_rows(cx, f, rows, lambda r: from_path(f, r.lit["p"], r"^arg1\.m_ptr$") and from_path(f, r.lit["q"], r"^arg0\.m_ptr$") and r.lit["d"] is not None and r.lit["e"] is not None, "objects and deleters are exchanged", "swap")


UNT = (("UntypedPublisherImpl_loan", "tryAllocateChunk", "new"), ("UntypedPublisherImpl_publish", "sendChunk", "chunk"), ("UntypedPublisherImpl_release", "releaseChunk", "chunk"),
       ("UntypedSubscriberImpl_take", "tryGetChunk", "new"), ("UntypedSubscriberImpl_release", "releaseChunk", "chunk"),
       ("UntypedClientImpl_loan", "allocateRequest", "new"), ("UntypedClientImpl_releaseRequest", "releaseRequest", "hdr"), ("UntypedClientImpl_send", "sendRequest", "hdr"), ("UntypedClientImpl_take", "getResponse", "new"), ("UntypedClientImpl_releaseResponse", "releaseResponse", "hdr"),
       ("UntypedServerImpl_take", "getRequest", "new"), ("UntypedServerImpl_releaseRequest", "releaseRequest", "hdr"), ("UntypedServerImpl_loan", "allocateResponse", "new"), ("UntypedServerImpl_send", "sendResponse", "hdr"), ("UntypedServerImpl_releaseResponse", "releaseResponse", "hdr"))


@P.rule("R6", "the untyped endpoints hand exactly the chunk of the given payload to the matching port operation once, and return the payload of the chunk obtained or the error", min=30)
def r6(cx):
    for rid, op, kind in UNT:
        f = cx.fn(rid)
        c = call(r"PortUser::%s$" % op)
        send = op.startswith("send") and kind == "hdr"
        res_ = kind == "new" or send
        pay = 2 if send else 1
        req_some(cx, f, matching(f, c), "%s uses the port" % rid, rid + "/port")
        if kind == "new":
            s, rows = runs(f, {"port": PORT, "op": c}, {"ok": exp_ok(c, stable=True)})
            check_rows(cx, f, rows, lambda r: r.n("port") == 1 and r.n("op") == 1, "one chunk is obtained", rid + "/once")
            check_rows(cx, f, rows, lambda r: r.st.get("tag") in (0, 1) and (r.st["tag"] == 0) == (r.lit.get("ok") is True), "the result tells whether a chunk was obtained", rid + "/iff")
            check_rows(cx, f, [r for r in rows if r.st.get("tag") == 0], lambda r: isinstance(r.st.get("val"), Ins) and payload_of(f, r.st["val"], op), "its payload is returned", rid + "/payload")
            check_rows(cx, f, [r for r in rows if r.st.get("tag") == 1], lambda r: fwd_error(f, r), "the error is forwarded", rid + "/error")
            for i in matching(f, c):
                a = [f.strip(x) for x in i.ops[2:]]
                cx.ob(re.search(r"^arg1\.m_port$", f.path(i.ops[1])) is not None and a == [Val("arg", 2 + k) for k in range(len(a))], f, "the own port gets the given parameters", rid + "/params", i)
            continue
        hasc = nonnull(lambda v: isinstance(v, Ins) and v.op == "call" and re.search(r"fromUserPayload$|fromPayload$", v.callee or "") is not None)
        s, rows = runs(f, {"port": PORT, "op": c}, {"chunk": hasc})
        if kind == "chunk":
            check_rows(cx, f, rows, lambda r: r.ev.count("op") == r.n("port") and (r.n("op") == 1 or r.lit.get("chunk") is False), "the chunk is handed over once", rid + "/once")
        else:
            check_rows(cx, f, rows, lambda r: r.n("port") == r.n("op") and r.n("op") == (0 if r.lit.get("chunk") is False else 1), "the chunk is handed over once if there is one", rid + "/once")
        if send:
            check_rows(cx, f, [r for r in rows if r.lit.get("chunk") is False], lambda r: r.st.get("tag") == 1 and isinstance(r.st.get("val"), Val) and r.st["val"].v == 2, "an invalid payload is reported", rid + "/invalid")
        for i in matching(f, c):
            p = f.path(i.ops[-1])
            want = r"^(iox::mepoo::)?(ChunkHeader::)?fromUserPayload\(arg%d\)$" % pay if kind == "chunk" else r"userHeader\(.*fromUserPayload\(arg%d\)\)$|fromPayload\(arg%d\)$" % (pay, pay)
            cx.ob(re.search(want, p) is not None and any(re.search(r"\.m_port$", f.path(o)) for o in i.ops), f, "the chunk of the given payload goes to the own port", rid + "/chunk", i)
            if send:
                cx.ob(f.strip(i.ops[0]) == Val("arg", 0) or any(MEMCPY.search(x.callee or "") and f.path(x.ops[0]) == "arg0" for x in f.ins() if x.op == "call"), f, "the result is forwarded", rid + "/result", i)
