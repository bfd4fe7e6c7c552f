from engine.core import Prop
from rules.lib import *

P = Prop("P09")
P.explain = """
Decision tables over all paths of ChunkReceiver and ChunkQueuePopper (subscriber, client and server instances): what is
handed to the application against what was popped and recorded, ownership transfer out of the queue, draining on clean-up."""
PP = "iceoryx_posh/source/popo/ports/"
PORTS = [PP + x for x in ("publisher_port_user.cpp", "publisher_port_roudi.cpp", "client_port_user.cpp", "server_port_user.cpp", "client_port_roudi.cpp", "server_port_roudi.cpp",
         "subscriber_port_user.cpp", "subscriber_port_single_producer.cpp", "subscriber_port_multi_producer.cpp", "subscriber_port_roudi.cpp", "subscriber_port_data.cpp", "client_port_data.cpp", "server_port_data.cpp")]
OPQ = [r"^iox::mepoo::(SharedChunk|ShmSafeUnmanagedChunk)::", r"^iox::popo::UsedChunkList::", r"^iox::popo::VariantQueue::", r"^iox::mepoo::ChunkHeader::", r"^iox::popo::ConditionNotifier::",
       r"^iox::popo::(ThreadSafePolicy|SingleThreadedPolicy)::"]
P.group("r", PORTS, opaque=OPQ + [r"^iox::popo::ChunkQueuePopper::(tryPop|clear)$"])
for n in ("tryGet", "release", "releaseAll"):
    P.root("r", n, "iox::popo::ChunkReceiver::" + n)
P.group("q", PORTS, opaque=OPQ)
for n in ("tryPop", "hasLostChunks", "clear"):
    P.root("q", n, "iox::popo::ChunkQueuePopper::" + n)
INUSE = r"\.m_chunksInUse$"
insert = call(r"UsedChunkList::insert$", (0, INUSE))
remove = call(r"UsedChunkList::remove$", (0, INUSE))
trypop = call(r"ChunkQueuePopper::tryPop$")
qpop = call(r"VariantQueue::pop$", (1, r"\.m_queue$"))
take = call(r"ShmSafeUnmanagedChunk::releaseToSharedChunk$")


@P.rule("R1", "a chunk is handed to the application exactly when one was received and recorded as held", min=12)
def get(cx):
    for f in cx.fns("tryGet"):
        rows = exp_rows(f, dict(pop=trypop, insert=insert), dict(got=opt_has(trypop), ins=truth_of(insert)))
        check_rows(cx, f, rows, lambda r: r.n("pop") == 1, "one chunk is taken from the queue", "pop")
        check_rows(cx, f, rows, lambda r: r.lit["ret"] == ("ok" if r.lit.get("ins") is True else "err"), "a chunk is handed out iff it was recorded", "recorded")
        check_rows(cx, f, rows, lambda r: r.n("insert") == (1 if r.lit.get("got") is True else 0), "exactly the received chunk is recorded", "insert")
        none = {repr(r.lit["val"]) for r in rows if r.lit.get("got") is not True}
        many = {repr(r.lit["val"]) for r in rows if r.lit.get("ins") is False}
        cx.ob(len(none) == 1 and len(many) == 1 and none.isdisjoint(many), f, "no data and too many held chunks are told apart", "codes")
        for s in [i for i in f.ins() if store(EXP_VAL)(i) and isinstance(f.strip(i.ops[0]), Ins) and call(r"getChunkHeader$")(f.strip(i.ops[0]))]:
            h = f.strip(s.ops[0]).ops[0]
            cx.ob(all(same_chunk(f, i.ops[1], h) for i in matching(f, insert)), f, "the chunk handed out is the one recorded", "same", s)
        for i in matching(f, insert):
            src = {f.root_of(c.ops[0]).id for c in matching(f, trypop) if isinstance(f.root_of(c.ops[0]), Ins)}
            cx.ob(bool(src & chunk_chain(f, i.ops[1])), f, "the chunk recorded is the one received", "received", i)


@P.rule("R2", "releasing returns exactly the named chunk; an unknown chunk is reported", min=6)
def release(cx):
    for f in cx.fns("release"):
        rows = table(f, dict(remove=remove, report=REPORT), dict(rem=truth_of(remove)))
        check_rows(cx, f, rows, lambda r: r.n("remove") == 1 and r.lit.get("rem") is not None and (r.n("report") >= 1) == (not r.lit["rem"]), "the chunk is removed, or the misuse reported", "release")
        for r in matching(f, remove):
            cx.ob(v_arg(1)(f.strip(r.ops[1])), f, "the chunk named by the caller is released", "which", r)


@P.rule("R3", "cleaning up gives back held chunks and drains the queue", min=6)
def release_all(cx):
    for f in cx.fns("releaseAll"):
        on_all_returns(cx, f, call(r"UsedChunkList::cleanup$", (0, INUSE)), "all held chunks are given back", "held")
        on_all_returns(cx, f, call(r"ChunkQueuePopper::clear$"), "the queue is drained", "queue")


@P.rule("R4", "a popped chunk changes hands once; a chunk with another header version is dropped and reported", min=12)
def pop(cx):
    for f in cx.fns("tryPop"):
        ver = lambda v: isinstance(v, Ins) and call(r"ChunkHeader::chunkHeaderVersion$")(v)
        rows = opt_rows(f, dict(pop=qpop, take=take, report=REPORT), dict(got=opt_has(qpop), ver=equals(ver, v_const())))
        check_rows(cx, f, rows, lambda r: r.n("pop") == 1, "one element is popped", "pop")
        check_rows(cx, f, rows, lambda r: r.n("take") == (1 if r.lit.get("got") is True else 0), "the popped chunk's ownership is taken over", "take")
        check_rows(cx, f, rows, lambda r: r.lit.get("got") is not None and (not r.lit["got"] or r.lit.get("ver") is not None) and r.lit["ret"] is (r.lit["got"] and r.lit["ver"]), "a chunk is returned iff one was popped and its version is known", "iff")
        check_rows(cx, f, rows, lambda r: not (r.lit.get("ver") is False) or r.n("report") >= 1, "an unknown version is reported", "report")
        for t in matching(f, take):
            cx.ob(any(f.root_of(t.ops[1]) is f.root_of(c.ops[0]) for c in matching(f, qpop)), f, "ownership comes from the popped element", "from", t)
            out = [c for c in f.calls(r"SharedChunk::SharedChunk$") if f.path(c.ops[0]).startswith("arg0")]
            cx.ob(bool(out) and all(same_chunk(f, c.ops[1], t.ops[0]) for c in out), f, "the popped chunk is the one returned", "same", t)


@P.rule("R5", "draining ends only when the queue is empty and releases what it takes", min=6)
def clear(cx):
    for f in cx.fns("clear"):
        e = holds(opt_has(qpop), False)
        w = f.search(None, is_ret, None, e)
        cx.ob(w is None, f, "draining goes on until the queue is empty", "all", None, w)
        w = next((x for x in (f.search(q, anyof(is_ret, qpop), take, e) for q in matching(f, qpop)) if x is not None), None)
        cx.ob(w is None and bool(matching(f, qpop)), f, "every chunk taken is released", "release", None, w)


@P.rule("R6", "a reported overflow is cleared only by reporting it to the reader", min=3)
def lost(cx):
    for f in cx.fns("hasLostChunks"):
        FL = r"m_queueHasLostChunks"
        rd = lambda i: i.op in ("load", "atomicrmw", "cmpxchg") and re.search(FL, f.addr(i)) is not None
        clr = lambda i: (store(FL, v_const(0))(i)) or (i.op == "atomicrmw" and re.search(FL, f.addr(i)) is not None)
        rows = bool_rows(f, dict(clear=clr), dict(was=truth_of(rd)))
        check_rows(cx, f, rows, lambda r: returns_iff(r, "was") or r.lit["ret"] == ("is", "was", True), "true iff chunks were lost", "ret")
        check_rows(cx, f, rows, lambda r: r.n("clear") == 0 if r.lit.get("was") is False and not any(i.op == "atomicrmw" for i in f.ins()) else r.n("clear") >= 1, "the flag is consumed by the report", "clear")
