import os

from engine.core import Prop
from rules.lib import *

P = Prop("P21")
P.explain = """
For every instantiation of send/receive of the three channels the outcomes of the system calls (IOX_POSIX_CALL: value and errno) are
followed to the expected that is returned: ok iff the call succeeded. Length and buffer handed to the kernel are traced as affine terms of
the caller's message; the only bytes of a received datagram that are read are those within the length received. For the named pipe the
semaphore operations and the queue form a typestate (slot obtained, written, announced / announced, taken, freed). Limits checked at
creation are compared with the buffers they protect."""
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "ipc.cpp")
H = "iceoryx_hoofs/posix/"
P.group("uds", [H + "ipc/source/unix_domain_socket.cpp", DRV], opaque=[r"^iox::units::", r"^iox::UnixDomainSocket::(errnoToEnum|closeFileDescriptor)$", r"^iox::detail::isValid"])
P.group("mq", [H + "ipc/source/message_queue.cpp", DRV], opaque=[r"^iox::units::", r"^iox::MessageQueue::(errnoToEnum|sanitizeIpcChannelName)$"])
for g, c in (("uds", "UnixDomainSocket"), ("mq", "MessageQueue")):
    P.root(g, g + ".send", r"iox::%s::(s|timedS)end(<.*)?" % c)
    P.root(g, g + ".receive", r"iox::%s::(r|timedR)eceive(<.*)?(\[abi:cxx11\])?" % c)
    P.root(g, g + ".raw", r"iox::function_ref::function_ref::.*__invoke", filter=r"BufferInfo.*%s::(r|timedR)eceive" % c)
    P.root(g, g + ".errno", r"iox::%s::errnoToEnum" % c, filter=r"errnoToEnum\(iox::string")
    P.root(g, g + ".create", r"iox::%sBuilder(NoPathPrefix)?::create" % c)
P.group("np", [H + "ipc/source/named_pipe.cpp", DRV], opaque=[r"^iox::units::", r"^iox::(Unnamed|)Semaphore(Interface)?::", r"^iox::detail::SemaphoreInterface", r"^iox::concurrent::", r"^iox::PosixSharedMemory", r"^iox::detail::isValid"])
P.root("np", "np.send", r"iox::NamedPipe::(s|tryS|timedS)end(<.*)?")
P.root("np", "np.receive", r"iox::NamedPipe::(r|tryR|timedR)eceive(<.*)?(\[abi:cxx11\])?")
P.root("np", "np.create", r"iox::NamedPipeBuilder::create")

TX = {"uds": r"^(iox_)?send(to)?$", "mq": r"^mq_(timed)?send$"}
RX = {"uds": r"^(iox_)?recv(from)?$", "mq": r"^mq_(timed)?receive$"}
FD = {"uds": r"\.m_sockfd$", "mq": r"\.m_mqDescriptor$"}
LIMIT = {"uds": (r"^arg1\.m_maxMessageSize$", 0), "mq": (r"^arg1\.m_attributes\.mq_msgsize$", 1)}
OPT = r"^(iox_)?setsockopt$"
STR = r"(basic_string|iox::string)::"


def size_plus(f, v, msg):
    """c with v = size(message) + c"""
    a, c = lin(f, v)
    if isinstance(a, Ins) and a.op == "call" and re.search(STR + r"(size|length)$", a.callee or "") and f.strip(a.ops[0]) == msg:
        return c
    return None


def too_long(f, g, msg):
    """literal: the message exceeds the limit of the channel (exactly)"""
    rx, add = LIMIT[g]

    def p(k, pol):
        if k[0] not in ("ult", "slt"):
            return None
        for lim, siz, strict in ((k[1], k[2], True), (k[2], k[1], False)):
            c = size_plus(f, siz, msg)
            if c is None:
                continue
            a, off = lin(f, lim)
            if not (isinstance(a, tuple) and a[0] == "load" and re.search(rx, a[1])):
                continue
            # limit + off < size + c  <=>  size + (c - off) > limit ;  size + c < limit + off  <=>  not (size + c - off + 1 > limit)
            if strict and c - off == add:
                return pol
            if not strict and c - off + 1 == add:
                return not pol
        return None
    return p


def posix_done(f, rx):
    """literal: the call did not return its failure value"""
    base = posix_ok(f, rx, bad=0xffffffff)
    wide = posix_ok(f, rx, bad=0xffffffffffffffff)

    def p(k, pol):
        t = base(k, pol)
        return wide(k, pol) if t is None else t
    p.stable = False
    return p


def timed(cx, f, g, acts, arg, opt):
    """the timeout handed to the kernel is the one of the caller"""
    D = re.compile(r"^(iox::units::)?Duration::|units::Duration::")
    if g == "uds":
        so = matching(f, call(OPT))
        req_some(cx, f, so, "the timeout is set on the socket", "timeout.set")
        for a in acts:
            req_before(cx, f, a, lambda i: i in so, "the timeout is set before the transfer", "timeout.set")
        for s in so:
            cx.ob(re.search(FD[g], f.path(s.ops[0])) and v_const(opt)(f.strip(s.ops[2])), f, "the timeout of this direction is set on the channel's socket", "timeout.which", s)
            cx.ob(holds_call(f, s.ops[3], r"Duration::timeval$", arg), f, "the timeout set is that of the call", "timeout.value", s)
    else:
        for a in acts:
            if "timed" in a.callee:
                t = f.root_of(a.ops[4])
                ok = isinstance(t, Ins) and any(w.op == "store" and src_call(f, w.ops[0], r"Duration::timespec$", arg, 1) for w in f.writers(t))
                cx.ob(ok, f, "the absolute time handed over is the caller's timeout added to the time of the epoch clock", "timeout.value", a)


def src_call(f, v, rx, arg, ref=None):
    v = f.strip(v)
    if isinstance(v, Ins) and v.op == "extractvalue":
        v = f.strip(v.ops[0])
    if not (isinstance(v, Ins) and v.op == "call" and re.search(rx, v.callee or "")):
        return False
    if ref is not None and not v_const(ref)(f.strip(v.ops[1])):
        return False
    return arg is None or arg(f.strip(v.ops[0]))


def holds_call(f, v, rx, arg):
    t = f.root_of(v)
    return isinstance(t, Ins) and any(w.op == "store" and src_call(f, w.ops[0], rx, arg) for w in f.writers(t))


def server(f):
    return enum2(r"\.m_channelSide$", 1)


@P.rule("R1", "send reports success exactly if the system accepted the whole message, terminator included; a message above the limit or on the receiving side is not sent", min=40)
def _(cx):
    side = cx.enum("iox::PosixIpcChannelSide")
    E = cx.enum("iox::PosixIpcChannelError")
    assert side["SERVER"] == 1 and side["CLIENT"] == 0
    for g in ("uds", "mq"):
        for f in cx.fns(g + ".send"):
            msg = Val("arg", 2)
            acts = matching(f, call(TX[g]))
            req_some(cx, f, acts, "a message is handed to the system", "send.some")
            long = too_long(f, g, msg)
            lits = {"done": posix_done(f, TX[g]), "long": long, "to": posix_errno(f, TX[g], 110), "server": server(f), "opt": posix_done(f, OPT)}
            rows = exp_rows(f, {"tx": call(TX[g])}, lits)
            timedout = lambda r: g == "mq" and r.lit.get("to") is True
            check_rows(cx, f, rows, lambda r: r.lit["ret"] in ("ok", "err"), "the outcome is reported", "send.outcome")
            check_rows(cx, f, rows, lambda r: r.lit["ret"] != "ok" or (r.n("tx") and r.lit.get("done") is True), "success is only reported for a message the system accepted", "send.ok")
            check_rows(cx, f, rows, lambda r: r.lit["ret"] != "err" or r.lit.get("done") is not True or timedout(r), "an accepted message is not reported as failed", "send.err")
            check_rows(cx, f, rows, lambda r: not r.n("tx") or r.lit.get("long") is False, "a message above the channel's limit is not sent", "send.long")
            check_rows(cx, f, rows, lambda r: r.n("tx") or r.lit["ret"] != "err" or r.lit.get("long") is True or (g == "uds" and (r.lit.get("server") is True or r.lit.get("opt") is False)), "a message within the limit is handed to the system", "send.refuse")
            check_rows(cx, f, rows, lambda r: r.lit.get("long") is not True or (isinstance(r.lit["val"], Val) and r.lit["val"].v == E["MESSAGE_TOO_LONG"]), "a message above the limit is reported as too long", "send.longerr")
            if g == "uds":
                check_rows(cx, f, rows, lambda r: not r.n("tx") or r.lit.get("server") is False, "the receiving side does not send", "send.side")
            for a in acts:
                cx.ob(re.search(FD[g], f.path(a.ops[0])), f, "the message goes to this channel", "send.fd", a)
                b = f.strip(a.ops[1])
                cx.ob(isinstance(b, Ins) and b.op == "call" and re.search(STR + r"(c_str|data)$", b.callee or "") and f.strip(b.ops[0]) == msg, f, "the bytes sent are those of the message", "send.bytes", a)
                cx.ob(size_plus(f, a.ops[2], msg) == 1, f, "the message is sent with its terminator and nothing else", "send.len", a)
            td = "timedSend" in f.base
            timed(cx, f, g, acts, (lambda v: v == Val("arg", 3)) if td else None, 21)
            cx.ob(td is False or g == "uds" or all("timed" in a.callee for a in acts), f, "a timed send uses the timed call", "send.timed")


@P.rule("R2", "receive hands out exactly the bytes received without the terminator, and only if there is one; whatever the peer sent, nothing outside the received bytes is read", min=40)
def _(cx):
    for g in ("uds", "mq"):
        for f in cx.fns(g + ".raw"):
            acts = matching(f, call(RX[g]))
            req_some(cx, f, acts, "a message is received", "recv.some")
            got = lambda v: posix_val(f, v, RX[g])
            done = posix_done(f, RX[g])

            def positive(k, pol):
                if k[0] == "eq" and got(k[1]) and v_const(0)(f.strip(k[2])):
                    return not pol
                if k[0] in ("ult", "slt"):
                    if got(k[2]) and v_const(0)(f.strip(k[1])):
                        return pol
                    if got(k[1]) and v_const(1)(f.strip(k[2])):
                        return not pol
                return None

            def at_end(i):
                if i.op != "load" or f.root_of(i.ops[0]) != Val("arg", 1):
                    return None
                x = index_of(f, i.ops[0])
                if x is None:
                    return None
                a, c = lin(f, x)
                return c if isinstance(a, Ins) and got(a) else "other"
            term = equals(lambda v: isinstance(v, Ins) and at_end(v) == -1, isnull)
            reads = [i for i in f.ins() if i.op == "load" and f.root_of(i.ops[0]) == Val("arg", 1) and index_of(f, i.ops[0]) is not None]
            for i in reads:
                cx.ob(at_end(i) == -1, f, "only the last byte received is looked at", "recv.index", i)
                req_guard(cx, f, i, holds(positive), "an empty message is not read (its last byte would lie before the buffer)", "recv.empty")
                req_guard(cx, f, i, holds(done), "the buffer is read only if a message was received", "recv.done")
            dl = [i for i in f.ins() if i.op == "store" and isinstance(f.strip(i.ops[0]), Ins) and isinstance(lin(f, i.ops[0])[0], Ins) and got(lin(f, i.ops[0])[0])]
            req_some(cx, f, dl, "the length received is handed out", "recv.len")
            for i in dl:
                cx.ob(lin(f, i.ops[0])[1] == -1, f, "the length handed out is that of the bytes received without the terminator", "recv.len", i)
                req_guard(cx, f, i, holds(done), "a length is handed out only if a message was received", "recv.ok")
                req_guard(cx, f, i, holds(term), "a message without terminator is not handed out", "recv.term")
                req_guard(cx, f, i, holds(positive), "an empty message is not handed out", "recv.empty")
            def kept(k, pol):
                v = f.strip(k[1]) if isinstance(k[1], Ins) else None
                if v is None or v.op != "load" or not re.search(r"\*arg0.*m_type_index$", f.addr(v)):
                    return None
                return (not pol) if k[0] == "b" else (pol if f.strip(k[2]).v == 0 else not pol) if k[0] == "eq" and v_const()(f.strip(k[2])) else None
            rows = finals(f, {}, {"out": lambda i: i in dl}, {"kept": kept, "done": done, "pos": positive, "term": term, "to": posix_errno(f, RX[g], 110), "opt": posix_done(f, OPT), "server": server(f)}, deep=True)

            def given(r):
                took = r.lit.get("done") is True and not (g == "mq" and r.lit.get("to") is True)
                if not took:
                    return not r.n("out")
                if r.lit.get("pos") is None or (r.lit["pos"] and r.lit.get("term") is None):
                    return False
                return (r.n("out") > 0) == (r.lit["pos"] is True and r.lit.get("term") is True)
            check_rows(cx, f, rows, given, "a message with terminator that was taken from the channel is handed out", "recv.given")

            def length(r):
                v = res(f, f.ret_value(r.ret, r.st), r.st)
                if r.lit.get("kept") is False or (r.lit.get("kept") is None and not r.n("out")):
                    return isnull(v)
                if isinstance(v, Ins) and v.op == "load":
                    return r.lit.get("kept") is True and re.search(r"\*arg0.*m_storage$", f.addr(v)) is not None
                a, c = lin(f, v) if isinstance(v, Ins) else (None, None)
                return isinstance(a, Ins) and bool(got(a)) and c == -1
            check_rows(cx, f, rows, length, "the string gets the length of the message, or none", "recv.length")
            for a in acts:
                cx.ob(re.search(FD[g], f.path(a.ops[0])), f, "the message comes from this channel", "recv.fd", a)
                cx.ob(f.strip(a.ops[1]) == Val("arg", 1) and f.strip(a.ops[2]) == Val("arg", 3), f, "the buffer and its size are those of the string filled", "recv.buf", a)
                if g == "uds":
                    req_guard(cx, f, a, holds(server(f)), "the sending side does not receive", "recv.side", False)
            if "timedReceive" in f.full or g == "uds":
                timed(cx, f, g, acts, None, 20)
        for f in cx.fns(g + ".receive"):
            raw = matching(f, call(r"string::unsafe_raw_access$"))
            req_some(cx, f, raw, "the message is received into a string", "recv.into")

            def tag(v):
                if not (isinstance(v, Ins) and v.op == "load" and v.ty == "i64"):
                    return False
                r = f.root_of(v.ops[0])
                return isinstance(r, Ins) and r.op == "alloca" and re.search(r"\+8$|m_type_index$", f.path(v.ops[0])) and not any("~" in (c or "") or "destruct" in (c or "") for c in v.chain())

            def good(k, pol):
                if k[0] == "eq" and tag(k[1]) and isinstance(k[2], Val) and k[2].k == "c" and k[2].v in (0, 1):
                    return pol if k[2].v == 0 else not pol
                return None
            good.stable = True
            rows = exp_rows(f, {"raw": lambda i: i in raw}, {"good": good})
            check_rows(cx, f, rows, lambda r: r.lit["ret"] in ("ok", "err") and (r.lit["ret"] == "ok") == (r.lit.get("good") is True) and r.n("raw") == 1, "success is reported exactly if a message was received", "recv.outcome")
            for a in raw:
                s = f.root_of(a.ops[0])
                if "cxx11" in f.base:
                    out = [i for i in f.ins() if i.op == "call" and re.search(r"basic_string::basic_string$", i.callee or "") and len(i.ops) > 1 and isinstance(f.strip(i.ops[1]), Ins) and f.strip(i.ops[1]).op == "call" and re.search(r"string::c_str$", f.strip(i.ops[1]).callee or "") and f.root_of(f.strip(i.ops[1]).ops[0]) is s]
                    req_some(cx, f, out, "the string handed out is the one received", "recv.out")
                else:
                    cx.ob(s == Val("arg", 2), f, "the message is received into the caller's string", "recv.out", a)


SEM = re.compile(r"Semaphore(Interface)?::(wait|tryWait|timedWait|post)$")


def sem(kind, field):
    def p(i):
        return i.op == "call" and re.search(r"Semaphore(Interface)?::(%s)$" % kind, i.callee or "") is not None and re.search(r"\.%s(\.m_data|\.value)?(\W|$)" % field, i.fn.path(i.ops[1] if len(i.ops) > 1 else i.ops[0])) is not None
    return p


def slot(f, cx, w):
    """literal: the (try/timed) wait w obtained a slot"""
    no = cx.enum("iox::SemaphoreWaitState")
    assert set(no.values()) == {0, 1}

    def val(v):
        v = f.strip(v)
        if not (isinstance(v, Ins) and v.op == "load" and v.ty != "i64"):
            return None
        r = f.root_of(v.ops[0])
        if not (isinstance(r, Ins) and r.op == "alloca"):
            return None
        for c in f.writers(r):
            if c.op == "call" and w(c) and f.root_of(c.ops[0]) is r:
                return c
        return None

    def p(k, pol):
        if k[0] == "b" and val(k[1]) is not None:
            return pol
        if k[0] == "eq" and val(k[1]) is not None and isinstance(k[2], Val) and k[2].k == "c":
            c = val(k[1])
            yes = no["NO_TIMEOUT"] if "timedWait" in c.callee else 1
            return pol if k[2].v == yes else not pol
        return None
    return p


def is_msg(f, v, depth=0):
    """the value is (a copy of) the message the caller gave"""
    if depth > 4:
        return False
    r = f.root_of(v)
    if r == Val("arg", 2):
        return True
    if isinstance(r, Ins) and r.op == "alloca":
        ws = [w for w in f.writers(r) if w.op == "call" and w.ops and f.root_of(w.ops[0]) is r and "~" not in w.callee]
        return bool(ws) and any(any(is_msg(f, o, depth + 1) for o in w.ops[1:]) for w in ws)
    if isinstance(r, Ins) and r.op == "call" and re.search(r"(c_str|data|size|length)$", r.callee or ""):
        return is_msg(f, r.ops[0], depth + 1)
    return False


@P.rule("R3", "a sender of a named pipe takes a free slot, writes the message, then announces it; success iff it did, nothing happens otherwise", min=20)
def _(cx):
    for f in cx.fns("np.send"):
        W, PO = sem("wait|tryWait|timedWait", "m_sendSemaphore"), sem("post", "m_receiveSemaphore")
        push = call(r"MpmcLockFreeQueue::push$")
        other = lambda i: i.op == "call" and SEM.search(i.callee or "") is not None and not W(i) and not PO(i)

        def long(k, pol):
            if k[0] in ("ult", "slt"):
                for a, b, up in ((k[1], k[2], True), (k[2], k[1], False)):
                    c = size_plus(f, b, Val("arg", 2))
                    n = f.strip(a)
                    if c is not None and isinstance(n, Val) and n.k == "c":
                        lim = n.v - c if up else n.v - c - 1
                        if lim == 4096:
                            return pol if up else not pol
            return None
        rows = exp_rows(f, {"wait": W, "push": push, "post": PO, "other": other}, {"slot": slot(f, cx, W), "long": long})
        blocking = all(not re.search(r"::(tryWait|timedWait)$", i.callee) for i in matching(f, W))
        done = ("wait", "push", "post")
        check_rows(cx, f, rows, lambda r: not (r.n("push") or r.n("post")) or (r.ev == done and (blocking or r.lit.get("slot") is True)), "a message is written only into a slot obtained before, and announced once, after it was written", "pipe.order")
        check_rows(cx, f, rows, lambda r: r.lit["ret"] in ("ok", "err") and (r.lit["ret"] == "ok") == (r.ev == done), "success is reported exactly if the message was written and announced", "pipe.outcome")
        check_rows(cx, f, rows, lambda r: r.ev == done or r.lit.get("slot") is False or r.lit.get("long") is True, "a message is refused only if it is too long or there is no free slot", "pipe.refuse")
        check_rows(cx, f, rows, lambda r: not r.n("other"), "the semaphores are used for slots and messages as meant", "pipe.other")
        if f.full.find("basic_string") >= 0:
            check_rows(cx, f, rows, lambda r: not r.ev or r.lit.get("long") is False, "a message longer than a slot is not cut", "pipe.long")
        for i in matching(f, push):
            cx.ob(re.search(r"^\*arg1\.m_data\.messages$", f.path(i.ops[1])) and is_msg(f, i.ops[2]), f, "the message of the caller is written into the queue of this pipe", "pipe.msg", i)
        ws = matching(f, W)
        base = f.base.split("::")[-1]
        for i in ws:
            if base.startswith("timed"):
                cx.ob(i.callee.endswith("timedWait") and f.strip(i.ops[-1]) == Val("arg", 3), f, "a timed send waits for the timeout given", "pipe.timed", i)
            else:
                cx.ob(i.callee.endswith("::tryWait" if base.startswith("try") else "::wait"), f, "a plain send waits for a slot, an attempt does not", "pipe.kind", i)


@P.rule("R4", "a receiver of a named pipe waits for a message, takes it, then frees its slot; it succeeds iff it took one and hands out that one", min=12)
def _(cx):
    for f in cx.fns("np.receive"):
        W, PO = sem("wait|tryWait|timedWait", "m_receiveSemaphore"), sem("post", "m_sendSemaphore")
        pop = call(r"MpmcLockFreeQueue::pop$")
        other = lambda i: i.op == "call" and SEM.search(i.callee or "") is not None and not W(i) and not PO(i)
        pops = matching(f, pop)
        has = opt_has(pop)
        has.stable = False
        mine = lambda v: isinstance(f.root_of(v), Ins) and any(f.root_of(p.ops[0]) is f.root_of(v) for p in pops)
        take = lambda i: i.op == "call" and re.search(r"iox::string::(operator=|assign|string)$", i.callee or "") is not None and len(i.ops) == 2 and mine(i.ops[1])
        rows = exp_rows(f, {"wait": W, "pop": pop, "post": PO, "take": take, "other": other}, {"slot": slot(f, cx, W), "has": has})
        blocking = all(not re.search(r"::(tryWait|timedWait)$", i.callee) for i in matching(f, W))
        done = lambda r: r.ev[:2] == ("wait", "pop") and sorted(r.ev[2:]) == ["post", "take"]
        check_rows(cx, f, rows, lambda r: not r.n("pop") or (r.ev[:2] == ("wait", "pop") and r.n("pop") == 1 and (blocking or r.lit.get("slot") is True)), "a message is taken only after it was announced", "pipe.pop")
        check_rows(cx, f, rows, lambda r: not r.n("post") or (done(r) and r.lit.get("has") is True), "a slot is freed once, after its message was taken", "pipe.free")
        check_rows(cx, f, rows, lambda r: r.lit["ret"] in ("ok", "err") and (r.lit["ret"] == "ok") == done(r), "success is reported exactly if a message was taken and handed out", "pipe.got")
        check_rows(cx, f, rows, lambda r: done(r) or r.lit.get("slot") is False or r.lit.get("has") is False, "an announced message is handed out", "pipe.lost")
        check_rows(cx, f, rows, lambda r: not r.n("other"), "the semaphores are used for slots and messages as meant", "pipe.other")
        for i in pops:
            cx.ob(re.search(r"^\*arg1\.m_data\.messages$", f.path(i.ops[1])), f, "the message is taken from the queue of this pipe", "pipe.queue", i)
        for i in matching(f, take):
            r = f.root_of(i.ops[0])
            out = r == Val("arg", 2) or (isinstance(r, Ins) and any(x.op == "call" and re.search(r"basic_string::basic_string$", x.callee or "") and len(x.ops) > 1 and isinstance(f.strip(x.ops[1]), Ins) and f.strip(x.ops[1]).op == "call" and f.root_of(f.strip(x.ops[1]).ops[0]) is r for x in f.ins()))
            cx.ob(out, f, "the message taken is the one handed out", "pipe.out", i)
        base = f.base.split("::")[-1]
        for i in matching(f, W):
            if base.startswith("timed"):
                cx.ob(i.callee.endswith("timedWait") and f.strip(i.ops[-1]) == Val("arg", 1 if "cxx11" not in base else 2) or f.strip(i.ops[-1]) == Val("arg", 3), f, "a timed receive waits for the timeout given", "pipe.timed", i)
            else:
                cx.ob(i.callee.endswith("::tryWait" if base.startswith("try") else "::wait"), f, "a plain receive waits for a message, an attempt does not", "pipe.kind", i)


def ub_edge(f, atom, n):
    """edge on which atom <= n is established"""
    def p(k, pol):
        if k[0] in ("ult", "slt"):
            x, c = lin(f, k[2])
            m = f.strip(k[1])
            if not pol and x is not None and atom(x) and isinstance(m, Val) and m.k == "c":
                return m.v - c <= n
            x, c = lin(f, k[1])
            m = f.strip(k[2])
            if pol and x is not None and atom(x) and isinstance(m, Val) and m.k == "c":
                return m.v - c - 1 <= n
        return False
    return p


def field_atom(rx):
    return lambda a: isinstance(a, tuple) and a[0] == "load" and re.search(rx, a[1]) is not None


def ok_stores(f):
    t = store(EXP_TAG)
    return [i for i in f.ins() if i.op == "store" and t(i) and isnull(f.strip(i.ops[0]))]


@P.rule("R5", "a named pipe is handed out only with as many free slots as its queue has room for, no message announced, and completely set up", min=10)
def _(cx):
    for f in cx.fns("np.create"):
        cap = [int(m.group(1)) for g in cx.fns("np.send") for i in matching(g, call(r"MpmcLockFreeQueue::push$")) for m in [re.search(r"MpmcLockFreeQueue<.*?, (\d+)u?l*>::push", i.full or "")] if m]
        req_some(cx, f, cap, "the pipe has a queue", "pipe.cap")
        oks = ok_stores(f)
        req_some(cx, f, oks, "a pipe is handed out", "pipe.create")
        mk = {n: matching(f, lambda i, n=n: i.op == "call" and re.search(r"UnnamedSemaphoreBuilder::create$", i.callee or "") is not None and re.search(r"\.%s$" % n, f.path(i.ops[2])) is not None) for n in ("m_sendSemaphore", "m_receiveSemaphore")}
        own = truth_call(r"PosixSharedMemoryObject::hasOwnership$")
        valid = None
        pub = matching(f, call(r"Atomic::store$", (0, r"initializationGuard$")))
        req_some(cx, f, pub, "the pipe is marked as set up", "pipe.valid")
        chk = matching(f, call(r"Atomic::load$", (0, r"initializationGuard$")))
        req_some(cx, f, chk, "an opened pipe is checked to be set up", "pipe.valid")
        for i in pub:
            valid = f.strip(i.ops[1])
            cx.ob(v_const(4, 5)(f.strip(i.ops[2])) or v_const(3)(f.strip(i.ops[2])), f, "the mark is published after the setup", "pipe.publish", i)
            for n, l in mk.items():
                req_some(cx, f, l, "the semaphore %s is created" % n, "pipe.sem")
                for c in l:
                    req_guard(cx, f, i, either(holds(exp_ok(lambda x, c=c: x is c)), lambda k, pol, c=c: pol and k[0] == "eq" and v_const(0xffffffffffffffff)(f.strip(k[2])) and isinstance(k[1], Ins) and k[1].op == "load" and f.root_of(k[1].ops[0]) is f.root_of(c.ops[0])), "the pipe is marked as set up only if %s could be created" % n, "pipe.sem")
        isv = equals(lambda v: v in chk, lambda v: valid is not None and f.strip(v) == valid)
        for o in oks:
            for a, n, w in ((field_atom(r"^arg1\.m_maxMsgNumber$"), min(cap) if cap else 0, "the number of slots fits into the queue"), (field_atom(r"^arg1\.m_maxMsgSize$"), 4096, "the message size fits into a slot")):
                req_guard(cx, f, o, ub_edge(f, a, n), w, "pipe.limit", False)
            w = f.search(None, lambda i: i is o, lambda i: i in pub, holds(isv))
            cx.ob(w is None, f, "a pipe is handed out only if it was set up, by this or the creating process", "pipe.ready", o, w)
        for i in pub:
            req_guard(cx, f, i, holds(own), "only the process that created the memory sets it up", "pipe.owner", False)
        # content of the builders at the calls
        last = {}

        def step(st, i):
            if i.op == "store" and isinstance(f.root_of(i.ops[1]), Ins) and f.root_of(i.ops[1]).op == "alloca" and "UnnamedSemaphoreBuilder" in f.path(i.ops[1]):
                st[("b", f.path(i.ops[1]))] = f.strip(i.ops[0])
            for n, l in mk.items():
                if i in l:
                    b = f.path(i.ops[1])
                    last.setdefault((n, i.id), []).append((st.get(("b", b)), st.get(("b", b + "+4"))))
            return None
        for _x in f.simulate({}, step, lambda st, k, pol: None):
            pass
        for (n, _i), vs in last.items():
            at = f.byid[_i]
            for v, ip in vs:
                if n == "m_receiveSemaphore":
                    cx.ob(isnull(v), f, "no message is announced at the beginning", "pipe.count", at)
                else:
                    cx.ob(v is not None and field_atom(r"^arg1\.m_maxMsgNumber$")(lin(f, v)[0]) and lin(f, v)[1] == 0, f, "the number of free slots at the beginning is the configured one", "pipe.count", at)
                cx.ob(isinstance(ip, Val) and ip.v == 1, f, "the semaphore works between processes", "pipe.ipc", at)


@P.rule("R6", "a socket or queue is handed out only with a valid name and size, after the system opened it for its side", min=16)
def _(cx):
    for f in [g for g in cx.fns("uds.create") if "NoPathPrefix" in g.base]:
        oks = ok_stores(f)
        req_some(cx, f, oks, "a socket is handed out", "open.ok")
        srv = server(f)
        cp = matching(f, call(r"^(strncpy|memcpy|llvm\.memcpy.*)$"))
        cp = [i for i in cp if "sockaddr_un" in f.path(i.ops[0]) and isinstance(f.strip(i.ops[1]), Ins) and f.strip(i.ops[1]).op == "call" and re.search(r"c_str$", f.strip(i.ops[1]).callee or "")]
        req_some(cx, f, cp, "the name is the address of the socket", "open.addr")
        size = lambda a: isinstance(a, Ins) and a.op == "call" and re.search(r"iox::string::size$", a.callee or "") is not None and f.path(a.ops[0]) == "arg1.m_name"
        for i in cp:
            a, c = lin(f, i.ops[2])
            cx.ob(a is not None and size(a) and c in (0, 1), f, "the whole name is the address", "open.addr", i)
            req_guard(cx, f, i, ub_edge(f, size, 107), "the name fits into the address with its terminator", "open.fit", False)
        for o in oks:
            req_guard(cx, f, o, holds(truth_call(r"isValidPathToFile$")), "the name is valid", "open.name", False)
            req_guard(cx, f, o, ub_edge(f, field_atom(r"^arg1\.m_maxMsgSize$"), 4095), "a message with its terminator fits into the buffer of the receiver", "open.limit", False)
            req_guard(cx, f, o, holds(posix_done(f, r"^(iox_)?socket$")), "the socket was created", "open.socket", False)
            req_guard(cx, f, o, either(holds(posix_done(f, r"^(iox_)?bind$")), holds(posix_done(f, r"^(iox_)?connect$"))), "the socket was bound or connected", "open.done", False)
        for rx, want, w in ((r"^(iox_)?bind$", True, "only the receiving side is bound to the name"), (r"^(iox_)?connect$", False, "only the sending side is connected")):
            l = matching(f, call(rx))
            req_some(cx, f, l, w, "open.side")
            for i in l:
                req_guard(cx, f, i, holds(srv, want), w, "open.side", False)
        for i in matching(f, call(r"^(iox_)?socket$")):
            cx.ob(v_const(1)(f.strip(i.ops[0])) and v_const(2)(f.strip(i.ops[1])), f, "the socket keeps the bounds of messages (datagram)", "open.kind", i)
    for f in cx.fns("mq.create"):
        oks = ok_stores(f)
        req_some(cx, f, oks, "a queue is handed out", "open.ok")
        op = matching(f, call(r"^(iox_)?mq_open4?$"))
        req_some(cx, f, op, "the queue is opened", "open.some")
        for o in oks:
            req_guard(cx, f, o, holds(posix_done(f, r"^(iox_)?mq_open4?$")), "the queue was opened (the system returns -1 otherwise)", "open.done", False)
            req_guard(cx, f, o, ub_edge(f, field_atom(r"^arg1\.m_maxMsgSize$"), 4096), "a message fits into the buffer of the receiver", "open.limit", False)
        for i in op:
            attr = f.root_of(i.ops[3])
            ws = [w for w in f.writers(attr) if w.op == "store"] if isinstance(attr, Ins) else []
            get = lambda off: [f.strip(w.ops[0]) for w in ws if f.path(w.ops[1]) == f.path(attr) + off]
            cx.ob(get("+16") and all(field_atom(r"^arg1\.m_maxMsgSize$")(lin(f, v)[0]) and lin(f, v)[1] == 0 for v in get("+16")), f, "the queue takes messages of the configured size", "open.size", i)
            cx.ob(get("+8") and all(field_atom(r"^arg1\.m_maxMsgNumber$")(lin(f, v)[0]) and lin(f, v)[1] == 0 for v in get("+8")), f, "the queue holds the configured number of messages", "open.number", i)


@P.rule("R7", "the reasons given for a failing call: timeout, no such channel, full, access denied, lost connection and so on as the system said", min=20)
def _(cx):
    E = cx.enum("iox::PosixIpcChannelError")
    T = {"uds": {13: "ACCESS_DENIED", 22: "INVALID_ARGUMENTS", 24: "PROCESS_LIMIT", 23: "SYSTEM_LIMIT", 105: "OUT_OF_MEMORY", 12: "OUT_OF_MEMORY", 98: "CHANNEL_ALREADY_EXISTS", 9: "INVALID_FILE_DESCRIPTOR", 88: "INVALID_FILE_DESCRIPTOR", 2: "NO_SUCH_CHANNEL", 5: "I_O_ERROR", 111: "NO_SUCH_CHANNEL", 104: "CONNECTION_RESET_BY_PEER", 11: "TIMEOUT"},
         "mq": {13: "ACCESS_DENIED", 11: "CHANNEL_FULL", 110: "TIMEOUT", 17: "CHANNEL_ALREADY_EXISTS", 22: "INVALID_ARGUMENTS", 2: "NO_SUCH_CHANNEL", 36: "INVALID_CHANNEL_NAME"}}
    for g in ("uds", "mq"):
        for f in cx.fns(g + ".errno"):
            for n, e in T[g].items():
                rets = set()
                for r, st, tr in f.simulate({}, lambda st, i: None, lambda st, k, pol: fixed(f, k, pol, n), phis=f.ret_phis()):
                    v = res(f, r.ops[0], st)
                    rets.add(v.v if isinstance(v, Val) else repr(v))
                cx.ob(rets == {E[e]}, f, "errno %d means %s" % (n, e), "errno.%d" % n)


def fixed(f, k, pol, n):
    """follow only the branches taken for errno n"""
    if k[0] in ("eq", "ult", "slt"):
        a, b = f.strip(k[1]), f.strip(k[2])
        ev = lambda v: n if v == Val("arg", 1) else v.v if isinstance(v, Val) and v.k == "c" else None
        x, y = ev(a), ev(b)
        if x is not None and y is not None:
            t = x == y if k[0] == "eq" else x < y
            if t is not pol:
                return False
    return None
