from engine.core import Prop
from rules.lib import *

P = Prop("P08")
P.explain = """
Decision tables over all paths of ChunkSender (publisher, client and server instances): outcome of a loan against the
outcome of recording it, guards of the reuse of the previous chunk, identity of the chunk along loan, header initialisation,
removal from the in-use list, delivery and replacement of the previous chunk."""
C = "iox::popo::ChunkSender::"
PP = "iceoryx_posh/source/popo/ports/"
OPQ = [r"^iox::mepoo::(SharedChunk|ShmSafeUnmanagedChunk)::", r"^iox::popo::UsedChunkList::", r"^iox::popo::ChunkDistributor::", r"^iox::mepoo::ChunkSettings::",
       r"^iox::mepoo::MemoryManager::", r"^iox::mepoo::ChunkHeader::"]
P.group("s", [PP + x for x in ("publisher_port_user.cpp", "publisher_port_roudi.cpp", "client_port_user.cpp", "server_port_user.cpp", "client_port_roudi.cpp", "server_port_roudi.cpp")], opaque=OPQ)
for n in ("tryAllocate", "release", "send", "sendToQueue", "pushToHistory", "tryGetPreviousChunk", "releaseAll"):
    P.root("s", n, C + n)
INUSE, LAST, SEQ = r"\.m_chunksInUse$", r"\.m_lastChunkUnmanaged$", r"\.m_sequenceNumber$"
insert = call(r"UsedChunkList::insert$", (0, INUSE))
remove = call(r"UsedChunkList::remove$", (0, INUSE))
create = call(r"ChunkSettings::create$")
getchunk = call(r"MemoryManager::getChunk$")
sole = call(r"ShmSafeUnmanagedChunk::isNotLogicalNullptrAndHasNoOtherOwners$", (0, LAST))
hdr = call(r"::getChunkHeader$")


def header_of(f, v):
    """chunk handle a header pointer was taken from"""
    v = f.strip(v)
    return v.ops[0] if isinstance(v, Ins) and hdr(v) else None


@P.rule("R1", "a loan succeeds exactly when it was recorded in the in-use list; otherwise the caller gets the matching error", min=12)
def loan(cx):
    for f in cx.fns("tryAllocate"):
        lits = dict(settings=exp_ok(create), got=exp_ok(getchunk), ins=truth_of(insert), sole=truth_of(sole))
        rows = exp_rows(f, dict(insert=insert, get=getchunk), lits)
        check_rows(cx, f, rows, lambda r: r.lit["ret"] in ("ok", "err"), "every path gives a result", "result")
        check_rows(cx, f, rows, lambda r: (r.lit["ret"] == "ok") == (r.lit.get("ins") is True), "a chunk is handed out iff it was recorded", "recorded")
        check_rows(cx, f, rows, lambda r: r.n("insert") <= 1, "a loan is recorded once", "once")
        check_rows(cx, f, rows, lambda r: r.lit.get("settings") is True or (r.lit["ret"] == "err" and not r.ev), "invalid settings are refused before anything is taken", "settings")
        check_rows(cx, f, rows, lambda r: r.lit.get("got") is not False or (r.lit["ret"] == "err" and r.n("insert") == 0 and not v_const()(r.lit["val"])), "the allocator's error is passed on", "mem-error")
        for k, what in (("settings", "invalid settings"), ("got", "lack of memory"), ("ins", "too many loans")):
            cx.ob(any(r.lit.get(k) is False and r.lit["ret"] == "err" for r in rows) and any(r.lit.get(k) is True and r.lit["ret"] == "ok" for r in rows), f, "%s is reported to the caller as an error, and only that" % what, "reported/" + k)
        codes = {}
        for r in rows:
            if r.lit["ret"] == "err":
                k = "settings" if r.lit.get("settings") is False else "memory" if r.lit.get("got") is False else "full" if r.lit.get("ins") is False else "?"
                codes.setdefault(k, set()).add(repr(r.lit["val"]))
        cx.ob(codes.get("settings") and codes.get("full") and codes["settings"].isdisjoint(codes["full"]) and len(codes["full"]) == 1 and "?" not in codes,
              f, "invalid settings, too many loans and lack of memory are told apart", "codes")


@P.rule("R2", "a loaned chunk is one nobody else owns, large enough, with a fresh header that names its origin", min=20)
def fresh(cx):
    for f in cx.fns("tryAllocate"):
        for i in matching(f, insert):
            src = i.ops[1]
            cc = chunk_chain(f, src)
            fromget = any(f.root_of(g.ops[0]).id in cc for g in matching(f, getchunk) if isinstance(f.root_of(g.ops[0]), Ins))
            fromlast = any(isinstance(x, str) and re.search(LAST, x) for x in cc)
            cx.ob(fromget != fromlast, f, "the recorded chunk comes from the allocator or is the previous one", "source", i)
            if fromget:
                req_guard(cx, f, i, holds(exp_ok(getchunk)), "only a chunk that was obtained is recorded", "obtained")
            if fromlast:
                req_guard(cx, f, i, holds(truth_of(sole)), "the previous chunk is reused only by its sole owner", "sole")

                def big(k, pol):
                    # chunkSize >= requiredChunkSize
                    if k[0] != "ult" or pol:
                        return False
                    a, b = f.strip(k[1]), f.strip(k[2])
                    return isinstance(a, Ins) and call(r"ChunkHeader::chunkSize$")(a) and isinstance(b, Ins) and call(r"ChunkSettings::requiredChunkSize$")(b) \
                        and header_of(f, a.ops[0]) is not None and re.search(LAST, f.path(header_of(f, a.ops[0])))
                req_guard(cx, f, i, big, "the previous chunk is reused only if it is large enough", "size")
        # settings as requested
        for c in matching(f, create):
            cx.ob([f.path(o) for o in c.ops[1:5]] == ["arg3", "arg4", "arg5", "arg6"], f, "the settings are those requested", "args", c)
        own = [c for c in matching(f, create)]
        for g in matching(f, getchunk):
            cx.ob(any(f.root_of(g.ops[2]) is f.root_of(c.ops[0]) for c in own), f, "memory is requested with these settings", "get-args", g)
        st = [i for i in f.ins() if store(EXP_VAL)(i) and isinstance(f.strip(i.ops[0]), Ins) and hdr(f.strip(i.ops[0]))]
        req_some(cx, f, st, "the header of the chunk is returned", "header")
        for s in st:
            h = header_of(f, s.ops[0])
            ins = [i for i in matching(f, insert) if same_chunk(f, i.ops[1], h) and f.reaches(i, s) is not None]
            w = f.must_precede(s, lambda i: i in ins) if ins else [s]
            cx.ob(w is None, f, "the chunk handed out is the one recorded", "same", s)

            def origin(i):
                return i.op == "call" and call(r"ChunkHeader::setOriginId$")(i) and header_of(f, i.ops[0]) is not None and same_chunk(f, header_of(f, i.ops[0]), h) \
                    and f.derives(i.ops[1], v_arg(2))
            w = f.must_precede(s, origin)
            cx.ob(w is None, f, "the chunk handed out carries the sender's id", "origin", s, w)
            if re.search(LAST, f.path(h)):
                def ctor(i):
                    return i.op == "call" and call(r"ChunkHeader::ChunkHeader$")(i) and header_of(f, i.ops[0]) is not None and same_chunk(f, header_of(f, i.ops[0]), h)
                w = f.must_precede(s, ctor)
                cx.ob(w is None, f, "the header of a reused chunk is initialised again", "reinit", s, w)
                for c in matching(f, ctor):
                    n = f.strip(c.ops[1])
                    cx.ob(isinstance(n, Ins) and n.op == "call" and call(r"ChunkHeader::chunkSize$")(n) and header_of(f, n.ops[0]) is not None and
                          same_chunk(f, header_of(f, n.ops[0]), h) and f.search(c, lambda i: i is n) is None, f, "the reused chunk keeps its size", "keep-size", c)
                    cx.ob(any(f.root_of(c.ops[2]) is f.root_of(x.ops[0]) for x in own), f, "the header is built from the requested settings", "reinit-args", c)
                    w = f.must_precede(c, lambda i: i in ins)
                    cx.ob(w is None, f, "the previous sample's header is overwritten only once the loan is recorded", "late", c, w)
                    orig = [o for o in matching(f, origin) if f.reaches(o, s) is not None]
                    cx.ob(all(f.reaches(o, c) is None for o in orig if f.reaches(c, s) is not None), f, "the id is set after the header was built", "origin-after", c)


DELIVER = {"send": "deliverToAllStoredQueues", "sendToQueue": "deliverToQueue", "pushToHistory": "addToHistoryWithoutDelivery"}


@P.rule("R3", "only a chunk that was on loan from this sender is delivered, once, numbered consecutively, and then kept as the previous one", min=20)
def send(cx):
    for rid, dn in DELIVER.items():
        for f in cx.fns(rid):
            deliver = call(r"ChunkDistributor::%s$" % dn)
            out = call(r"ChunkDistributor::(deliver|addToHistory)")
            setn = call(r"ChunkHeader::setSequenceNumber$")
            inc = store(SEQ)
            last = [i for i in writes_to(f, LAST) if True] + [i for i in f.calls(r"ShmSafeUnmanagedChunk::operator=$") if re.search(LAST, f.path(i.ops[0]))]
            newlast = lambda i: i in last
            rel = call(r"ShmSafeUnmanagedChunk::releaseToSharedChunk$", (1, LAST))
            lits = dict(rem=truth_of(remove))
            rows = table(f, dict(remove=remove, out=out, num=setn, inc=inc, rel=rel, last=newlast, report=REPORT), lits)
            t = rid + "/"
            check_rows(cx, f, rows, lambda r: r.n("remove") == 1, "the chunk is taken out of the in-use list", t + "remove")
            check_rows(cx, f, rows, lambda r: (r.lit.get("rem") is True) == (r.n("out") == 1) and r.n("out") < 2, "exactly the loaned chunks are passed on, once", t + "deliver")
            check_rows(cx, f, rows, lambda r: r.lit.get("rem") is True or (r.n("report") >= 1 and not (r.n("rel") or r.n("last") or r.n("inc"))), "an unknown chunk is reported and changes nothing", t + "unknown")
            check_rows(cx, f, rows, lambda r: r.lit.get("rem") is not True or (r.n("num") == 1 and r.n("inc") == 1), "a sent chunk gets the next number", t + "number")
            check_rows(cx, f, rows, lambda r: r.lit.get("rem") is not True or (r.n("rel") == 1 and r.n("last") == 1 and r.before("rel", "last")), "the previous chunk is given up before it is replaced", t + "previous")
            check_rows(cx, f, rows, lambda r: r.before("num", "out"), "the number is set before delivery", t + "number-first")
            for i in matching(f, inc):
                ld = [x for x in f.loads(SEQ)]
                cx.ob(any(adiff(f, i.ops[0], x) == {1: 1} for x in ld), f, "the sequence number grows by one", t + "step", i)
            for i in matching(f, setn):
                cx.ob(any(adiff(f, i.ops[1], x) in ({}, {1: 1}) for x in f.loads(SEQ)), f, "the chunk carries the sender's sequence number", t + "seq", i)
                cx.ob(header_of(f, i.ops[0]) is not None and all(same_chunk(f, header_of(f, i.ops[0]), r.ops[2]) for r in matching(f, remove)), f, "the sent chunk is numbered", t + "seq-chunk", i)
            for r in matching(f, remove):
                cx.ob(v_arg(1)(f.strip(r.ops[1])), f, "the chunk named by the caller is taken", t + "which", r)
                for o in matching(f, out):
                    cx.ob(same_chunk(f, o.ops[-1], r.ops[2]), f, "the chunk taken out of the list is the one delivered", t + "same", o)
                    cx.ob(deliver(o), f, "delivery goes to %s" % dn, t + "target", o)
                for o in last:
                    cx.ob(same_chunk(f, o.ops[1], r.ops[2]), f, "the chunk taken out of the list becomes the previous one", t + "last", o)
            if rid == "send":
                for r in rows:
                    v = f.ret_value(r.ret, r.st)
                    good = (isinstance(v, Ins) and deliver(v)) if r.lit.get("rem") is True else v_const(0)(v)
                    cx.ob(good, f, "send returns the number of receivers that got the chunk", t + "count", r.ret, r.trail)
            if rid == "sendToQueue":
                for o in matching(f, deliver):
                    cx.ob(f.derives(o.ops[2], v_arg(2)) and v_arg(3)(f.strip(o.ops[3])), f, "the queue asked for is addressed", t + "queue", o)
                rows = bool_rows(f, {}, dict(rem=truth_of(remove), ok=exp_ok(deliver)))
                check_rows(cx, f, rows, lambda r: (r.lit["ret"] is False) if r.lit.get("rem") is not True else (r.lit["ret"] == ("is", "ok", True) or returns_iff(r, "ok")), "success is returned iff the chunk was delivered", t + "ret")


@P.rule("R4", "releasing returns exactly the named loan; an unknown chunk is reported", min=6)
def release(cx):
    for f in cx.fns("release"):
        rows = table(f, dict(remove=remove, report=REPORT), dict(rem=truth_of(remove)))
        check_rows(cx, f, rows, lambda r: r.n("remove") == 1 and r.lit.get("rem") is not None and (r.n("report") >= 1) == (r.lit.get("rem") is False), "the loan is removed, or the misuse reported", "release")
        for r in matching(f, remove):
            cx.ob(v_arg(1)(f.strip(r.ops[1])), f, "the chunk named by the caller is released", "which", r)


@P.rule("R5", "cleaning up gives back loans, history and the previous chunk", min=9)
def release_all(cx):
    for f in cx.fns("releaseAll"):
        on_all_returns(cx, f, call(r"UsedChunkList::cleanup$", (0, INUSE)), "all loans are given back", "loans")
        on_all_returns(cx, f, call(r"ChunkDistributor::cleanup$"), "the history is given back", "history")
        on_all_returns(cx, f, call(r"ShmSafeUnmanagedChunk::releaseToSharedChunk$", (1, LAST)), "the previous chunk is given back", "previous")


@P.rule("R6", "the previous chunk is only exposed when there is one", min=2)
def previous(cx):
    for f in cx.fns("tryGetPreviousChunk"):
        has = [i for i in f.stores(r"^arg0\.m_hasValue$") if v_const(1)(f.strip(i.ops[0]))]
        req_some(cx, f, has, "a previous chunk can be returned", "some")
        for i in has:
            req_guard(cx, f, i, holds(truth_call(r"ShmSafeUnmanagedChunk::isLogicalNullptr$"), False), "only an existing chunk is returned", "exists")
