from engine.core import Prop
from rules.lib import *
from rules.p18 import Talk, element, is_add, msg_root

P = Prop("P19")
P.explain = """
The runtime's side of the protocol: for every answer RouDi may give, the decision tables of the request functions say which object or error
comes out; the content of every message sent is tracked along the path; registration, the mapping of segments and their clean-up are
decided in the same way."""
S = "iceoryx_posh/source/runtime/"
KINDS = ("Publisher", "Subscriber", "Client", "Server", "ConditionVariable")
UP = {"Publisher": "PUBLISHER", "Subscriber": "SUBSCRIBER", "Client": "CLIENT", "Server": "SERVER", "ConditionVariable": "CONDITION_VARIABLE", "Interface": "INTERFACE"}
P.group("rt", [S + "posh_runtime_impl.cpp"], opaque=[r"^iox::runtime::(?!.*lambda)(?!PoshRuntimeImpl::)", r"^iox::runtime::PoshRuntimeImpl::(request(Publisher|Subscriber|Client|Server|ConditionVariable)FromRoudi|sendRequestToRouDi|convert_id_and_offset)$", r"^iox::capro::", r"^iox::popo::\w+Options::(de)?serialize$", r"^iox::Serialization::", r"^iox::convert::", r"^iox::UntypedRelativePointer", r"^iox::concurrent::"])
for n in KINDS:
    P.root("rt", "req" + n, "iox::runtime::PoshRuntimeImpl::request%sFromRoudi" % n)
    P.root("rt", "get" + n, "iox::runtime::PoshRuntimeImpl::getMiddleware" + n)
P.root("rt", "getInterface", "iox::runtime::PoshRuntimeImpl::getMiddlewareInterface")
P.root("rt", "convert", "iox::runtime::PoshRuntimeImpl::convert_id_and_offset")
P.root("rt", "rtSend", "iox::runtime::PoshRuntimeImpl::sendRequestToRouDi")
P.root("rt", "keep", "iox::runtime::PoshRuntimeImpl::sendKeepAliveAndHandleShutdownPreparation")
P.root("rt", "dtor", "iox::runtime::PoshRuntimeImpl::~PoshRuntimeImpl")
P.group("ipc", [S + "ipc_runtime_interface.cpp"], opaque=[r"^iox::runtime::(?!.*lambda)(?!IpcRuntimeInterface::)", r"^iox::runtime::IpcRuntimeInterface::(waitForRoudi|waitForRegAck)$", r"^iox::convert::", r"^iox::version::", r"^iox::deadline_timer", r"^iox::Serialization::", r"^std::chrono"])
P.root("ipc", "create", "iox::runtime::IpcRuntimeInterface::create")
P.root("ipc", "regAck", "iox::runtime::IpcRuntimeInterface::waitForRegAck")
P.root("ipc", "request", "iox::runtime::IpcRuntimeInterface::sendRequestToRouDi")
P.group("base", [S + "ipc_interface_base.cpp"], opaque=[r"^iox::runtime::IpcMessage::", r"^iox::UnixDomainSocket::", r"^iox::NamedPipe::", r"^iox::MessageQueue::"])
for n in ("receive", "timedReceive", "send", "timedSend"):
    P.root("base", n, "iox::runtime::IpcInterface::" + n)
P.root("base", "strErr", "iox::runtime::stringToIpcMessageErrorType")
P.group("shm", [S + "shared_memory_user.cpp"], opaque=[r"^iox::PosixSharedMemoryObject", r"^iox::UntypedRelativePointer", r"^iox::mepoo::", r"^iox::runtime::SharedMemoryUser::(openShmSegment|destroy)$", r"^iox::concatenate", r"^iox::iceoryxResourcePrefix"])
P.root("shm", "shmCreate", "iox::runtime::SharedMemoryUser::create")
P.root("shm", "shmOpen", "iox::runtime::SharedMemoryUser::openShmSegment")
P.root("shm", "cleaner", "iox::storable_function::invoke", min=0)
P.root("shm", "shmDestroy", "iox::runtime::SharedMemoryUser::destroy")
P.root("shm", "shmDtor", "iox::runtime::SharedMemoryUser::~SharedMemoryUser")
P.group("base2", [S + "posh_runtime.cpp"])
P.root("base2", "shutdown", "iox::runtime::PoshRuntime::shutdown")

ELEM = call(r"IpcMessage::getElementAtIndex")
NUM = call(r"IpcMessage::getNumberOfElements$")
TYPE = call(r"^iox::runtime::stringToIpcMessageType$")
PTR = call(r"RelativePointer::getPtr$")
CONV = call(r"PoshRuntimeImpl::convert_id_and_offset$")


def is_request(f, i):
    """a request to RouDi: (message, answer)"""
    if i.op == "call" and len(i.ops) == 4 and (not i.callee or re.search(r"::sendRequestToRouDi$", i.callee)):
        m, a = f.root_of(i.ops[1]), f.root_of(i.ops[2])
        return m is not None and a is not None and (not i.callee or True)
    return False


def type_of(f, i):
    return TYPE(i) and element(f, i.ops[0]) == 0


def retval(sim, f, row, off):
    return sim.at(row, "arg0", off)


def made_by(f, r, pred):
    return isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and pred(w) for w in f.writers(r))


@P.rule("R1", "an answer is accepted iff it is the acknowledgement of the request with a valid address; every other answer is an error", min=100)
def r1(cx):
    T, E = cx.enum("iox::runtime::IpcMessageType"), cx.enum("iox::runtime::IpcMessageErrorType")
    for n in KINDS + ("Interface",):
        iface = n == "Interface"
        f = cx.fn("getInterface" if iface else "req" + n)
        REQ = lambda i: is_request(f, i)
        CNV = exp_ok(CONV, True)
        sim = Sim(f, {"tag": r"^arg0\.m_store\.data\.m_type_index$", "val": r"^arg0\.m_store\.data\.m_storage$"}, {"req": REQ}, {"conv": CNV}, calls={"sent": REQ, "num": NUM, "type": lambda i: type_of(f, i)})
        req_some(cx, f, matching(f, REQ), "the request is sent", n + "/sent")
        req_some(cx, f, sim.callv and [i for i in f.ins() if sim.callv.get(i.id) == "type"], "the type of the answer is looked at", n + "/type")
        ack, er = T["CREATE_%s_ACK" % UP[n]], T["ERROR_RESPONSE"]
        for sent in (0, 1):
            for num in (0, 1, 2, 3, 4) if sent else (3,):
                for t in sorted(set(T.values())):
                    rows = sim.run({"sent": sent, "num": num, "type": t})

                    def good(r):
                        if r.n("req") != 1:
                            return False
                        if iface:
                            v = f.ret_value(r.ret, r.st)
                            if sent and num == 3 and t == ack and r.lit.get("conv") is True:
                                return isinstance(v, Ins) and PTR(v)
                            return isinstance(v, Val) and v.k == "null" and (not (sent and num == 3 and t == ack) or r.lit.get("conv") is False)
                        tag, v = sim.final(r, "tag"), sim.final(r, "val")
                        if not sent:
                            return tag == 1 and v == E["REQUEST_%s_INVALID_RESPONSE" % UP[n]]
                        if num == 3 and t == ack:
                            if r.lit.get("conv") is True:
                                return tag == 0 and isinstance(v, Ins) and PTR(v)
                            return r.lit.get("conv") is False and tag == 1
                        if num == 2 and t == er:
                            return tag == 1 and isinstance(v, Ins) and call(r"^iox::runtime::stringToIpcMessageErrorType$")(v) and element(f, v.ops[0]) == 1
                        return tag == 1 and v == E["REQUEST_%s_WRONG_IPC_MESSAGE_RESPONSE" % UP[n]]
                    check_rows(cx, f, rows, good, "the answer %s with %d fields%s is accepted or refused as specified" % (t, num, "" if sent else ", not received,"), "%s/%d/%d/%d" % (n, sent, num, t))
        answers = {f.root_of(i.ops[2]) for i in f.ins() if REQ(i)}
        for i in f.ins():
            if NUM(i) or ELEM(i) or CONV(i):
                cx.ob(f.root_of(i.ops[2] if CONV(i) else i.ops[1] if ELEM(i) else i.ops[0]) in answers, f, "the answer received is looked at", n + "/answer", i)
            if PTR(i):
                def part(v, off):
                    v = f.strip(v)
                    q = f.strip(v.ops[0]) if isinstance(v, Ins) and v.op == "load" else None
                    r = f.root_of(q) if q is not None else None
                    return made_by(f, r, CONV) and str(f.path(q)).endswith("+8" if off else f.path(r))
                sg = f.root_of(i.ops[0])
                sv = [f.strip(w.ops[0]) for w in f.writers(sg) if w.op == "store"] if isinstance(sg, Ins) else []
                cx.ob(part(i.ops[1], 0) and len(sv) == 1 and part(sv[0], 8), f, "the address is made of the segment and offset received", n + "/address", i)
            if REQ(i) and not iface:
                cx.ob(f.strip(i.ops[1]) == Val("arg", 2), f, "the message given is sent", n + "/message", i)
    f = cx.fn("convert")
    FS = call(r"^iox::convert::from_string")
    idl, ofl = opt_has(lambda i: FS(i) and element(f, i.ops[-1]) == 2), opt_has(lambda i: FS(i) and element(f, i.ops[-1]) == 1)
    sim = Sim(f, {"tag": r"^arg0\.m_store\.data\.m_type_index$", "off": r"^arg0\.m_store\.data\.m_storage$", "id": r"^arg0\.m_store\.data\.m_storage\+8$"}, {}, {"id": idl, "off": ofl})
    rows = sim.run({})
    check_rows(cx, f, rows, lambda r: sim.final(r, "tag") == (0 if r.lit.get("id") is True and r.lit.get("off") is True else 1), "an address is produced iff both numbers can be read", "convert/iff")
    good = [r for r in rows if sim.final(r, "tag") == 0]

    def elem_at(r, name, k):
        v = sim.final(r, name)
        return isinstance(v, Ins) and v.op == "load" and element(f, v) == k
    check_rows(cx, f, good, lambda r: elem_at(r, "off", 1) and elem_at(r, "id", 2), "offset and segment are the respective fields of the answer", "convert/fields")


@P.rule("R2", "the request names type, sender, service and the options asked for, limited to what is possible, and yields the object or nothing", min=40)
def r2(cx):
    T = cx.enum("iox::runtime::IpcMessageType")
    LIM = {"Publisher": [("historyCapacity", "max0")], "Subscriber": [("queueCapacity", "max1")], "Client": [("responseQueueCapacity", "max1")], "Server": [("requestQueueCapacity", "max1")]}
    for n in KINDS + ("Interface",):
        f = cx.fn("get" + n)
        talk = Talk(cx, f)
        names = [x for x, _ in LIM.get(n, [])] + (["historyRequest"] if n == "Subscriber" else [])
        SENDS = (lambda i: is_request(f, i)) if n == "Interface" else call(r"PoshRuntimeImpl::request%sFromRoudi$" % n)

        def hk(sim, st, i):
            talk.step(st, i)
            if i.op == "call" and (i.callee or "").endswith("Options::serialize"):
                l = sim.loc(i.ops[1], st)
                got = []
                for x in names:
                    w = [o for (root, o), nm in sim.where.items() if nm == x and root == "arg2"]
                    v = sim.read(st, (l[0], l[1] + w[0])) if w and l else None
                    if isinstance(v, tuple):
                        v = sim.asg.get(x) if v[1] == "arg2" and v[2] == w[0] else v
                    got.append(sim.val(v, st) if isinstance(v, (Ins, Val)) else v)
                st["opts"] = tuple(got)
                st["optroot"] = l[0] if l else None
            if SENDS(i):
                m = f.root_of(i.ops[1] if n == "Interface" else i.ops[2])
                st["sent"] = st.get("sent", ())[:3] + (st.get(("msg", getattr(m, "id", None)), ("?",)),)
        ok = exp_ok(SENDS, True)
        NODE = lambda i: i.op == "call" and (i.callee or "") == "iox::string::operator=" and "m_appName" in f.path(i.ops[1])
        sim = Sim(f, {x: r"^arg2\.%s$" % x for x in names}, {"node": NODE}, {"ok": ok, "nonode": truth_of(call(r"^iox::string::empty$"))}, hook=hk)
        for x in names:
            cx.ob(sim.tags[x], f, "%s of the options is taken into account" % x, "%s/%s" % (n, x))
        cap = cx.enum("verif::Limits")[n] if n in LIM else 0
        dom = {x: sorted({0, 1, 2, max(cap - 1, 0), cap, cap + 1, (1 << 64) - 1}) for x in names}
        some = False
        for asg in product(dom) if names else [{}]:
            rows = sim.run(asg)
            some = some or bool(rows)
            up = UP[n]

            def sent(r):
                m = r.st.get("sent", ())
                if len(m) != 1:
                    return False
                m = m[0]
                if m[0] != "type:CREATE_" + up or not re.search(r"^arg0\.m_appName$", m[1] if len(m) > 1 else ""):
                    return False
                if n == "ConditionVariable":
                    return len(m) == 2
                if n == "Interface":
                    return len(m) == 4 and re.search(r"arg:?1$", m[2]) is not None and m[3] == "arg2"
                return len(m) == 5 and m[2] == "ser(arg1)" and m[3].startswith("ser(") and m[4] == "ser(arg3)"
            check_rows(cx, f, rows, sent, "one request with type, sender, service, options and configuration is sent", "%s/sent/%s" % (n, asg))
            if names:
                x = names[0]
                want = min(max(asg[x], 1 if LIM[n][0][1] == "max1" else 0), cap)
                check_rows(cx, f, rows, lambda r: r.st.get("opts", (None,))[0] == want, "%s is sent as asked for, limited to [%d, %d]" % (x, LIM[n][0][1] == "max1", cap), "%s/%s/%s" % (n, x, asg))
                if n == "Subscriber":
                    check_rows(cx, f, rows, lambda r: r.st.get("opts", (0, None))[1] == min(asg["historyRequest"], want), "the history request is limited to the queue capacity", "%s/history/%s" % (n, asg))
            if n != "Interface":
                def result(r):
                    v = f.ret_value(r.ret, r.st)
                    if r.lit.get("ok") is True:
                        return isinstance(v, Ins) and v.op == "load" and made_by(f, f.root_of(v.ops[0]), SENDS)
                    return r.lit.get("ok") is False and isinstance(v, Val) and v.k == "null"
                check_rows(cx, f, rows, result, "the object is returned iff there is one, otherwise nothing", "%s/result/%s" % (n, asg))
        req_some(cx, f, some and [1], "the request is made", n)


@P.rule("R3", "a request succeeds iff it was sent and an answer was received, and messages that are not valid are neither sent nor delivered", min=12)
def r3(cx):
    f = cx.fn("request")
    SEND, RECV = call(r"IpcInterface::(send|timedSend)$"), call(r"IpcInterface::(receive|timedReceive)$")
    lits = {"sent": truth_of(SEND), "got": truth_of(RECV)}
    rows = split_bool(f, bool_rows(f, {"send": SEND, "recv": RECV}, lits), lits)
    check_rows(cx, f, rows, lambda r: r.lit["ret"] is (r.lit.get("sent") is True and r.lit.get("got") is True), "success iff sent and received", "request/result")
    check_rows(cx, f, rows, lambda r: r.n("send") == 1 and r.n("recv") == (1 if r.lit.get("sent") else 0) and r.before("send", "recv"), "the request is sent once and then an answer received", "request/order")
    for i in matching(f, SEND):
        cx.ob(re.search(r"^arg0\.m_RoudiIpcInterface", f.path(i.ops[0])) is not None and f.strip(i.ops[1]) == Val("arg", 1), f, "the message is sent to RouDi", "request/to", i)
    for i in matching(f, RECV):
        cx.ob(re.search(r"^arg0\.m_AppIpcInterface", f.path(i.ops[0])) is not None and f.strip(i.ops[-1]) == Val("arg", 2), f, "the answer is received from the own channel", "request/from", i)
    for n in ("send", "timedSend"):
        for f in cx.fns(n):
            PUT = lambda i: i.op == "call" and re.search(r"^iox::(UnixDomainSocket|NamedPipe|MessageQueue)::(send|timedSend)(\[abi:cxx11\])?$", i.callee or "") is not None
            has = truth_of(load(r"^arg0\.m_ipcChannel\.m_hasValue$"))
            lits = {"open": has, "valid": truth_of(call(r"IpcMessage::isValid$", (0, r"^arg1$"))), "ok": exp_ok(PUT, True)}
            rows = split_bool(f, bool_rows(f, {"put": PUT}, lits), lits)
            check_rows(cx, f, rows, lambda r: r.lit["ret"] is (r.lit.get("open") is True and r.lit.get("valid") is True and r.lit.get("ok") is True), "true is returned iff the message is valid and was sent", n + "/result")
            check_rows(cx, f, rows, lambda r: r.n("put") == (1 if r.lit.get("open") and r.lit.get("valid") else 0), "only valid messages are sent, once", n + "/put")
            for i in matching(f, PUT):
                m = f.root_of(i.ops[2])
                cx.ob(made_by(f, m, lambda w: (w.callee or "").startswith("iox::runtime::IpcMessage::getMessage") and f.strip(w.ops[1]) == Val("arg", 1)), f, "the message given is sent", n + "/message", i)
    for n in ("receive", "timedReceive"):
        for f in cx.fns(n):
            GET = lambda i: i.op == "call" and re.search(r"^iox::(UnixDomainSocket|NamedPipe|MessageQueue)::(receive|timedReceive)(\[abi:cxx11\])?$", i.callee or "") is not None
            SET = call(r"IpcMessage::setMessage$")
            A = 1 if n == "receive" else 3
            VAL = lambda i: i.op == "call" and (i.callee or "").endswith("IpcMessage::isValid") and re.search(r"^arg\d$", f.path(i.ops[0])) is not None
            lits = {"open": truth_of(load(r"^arg0\.m_ipcChannel\.m_hasValue$")), "valid": truth_of(VAL), "ok": exp_ok(GET, True)}
            rows = split_bool(f, bool_rows(f, {"get": GET, "set": SET, "val": VAL}, lits), lits)
            check_rows(cx, f, rows, lambda r: not r.lit["ret"] or (r.lit.get("open") is True and r.lit.get("ok") is True and r.lit.get("valid") is True and r.n("set") == 1), "true is returned only when a valid message was received", n + "/true")
            check_rows(cx, f, rows, lambda r: r.lit["ret"] or r.lit.get("open") is False or r.lit.get("ok") is False or r.lit.get("valid") is False, "a valid message received is delivered", n + "/false")
            check_rows(cx, f, rows, lambda r: r.n("set") == (1 if r.lit.get("ok") else 0), "what was received is set as message, once", n + "/set")
            for i in matching(f, SET):
                cx.ob(re.search(r"^arg\d$", f.path(i.ops[0])) is not None, f, "the answer given is set", n + "/which", i)


@P.rule("R4", "a process is registered only with the acknowledgement of its own request, and keeps what it says", min=12)
def r4(cx):
    T, A = cx.enum("iox::runtime::IpcMessageType"), cx.enum("iox::runtime::IpcRuntimeInterface::RegAckResult")
    f = cx.fn("regAck")
    RECV = call(r"IpcInterface::(timedReceive|receive)$")
    FS = call(r"^iox::convert::from_string")
    lits = {"type": equals(lambda v: isinstance(v, Ins) and type_of(f, v), v_const(T["REG_ACK"])), "num": equals(lambda v: isinstance(v, Ins) and NUM(v), v_const(6)),
            "stamp": equals(v_arg(0), lambda v: isinstance(v, Ins) and element(f, v) == 3), "recv": truth_of(RECV),
            "heart": equals(lambda v: isinstance(v, Ins) and element(f, v) == 5, v_const((1 << 64) - 1, -1))}
    for k in range(1, 6):
        lits["f%d" % k] = opt_has(lambda i, k=k: FS(i) and element(f, i.ops[-1]) == k)
    WHERE = {"shmTopicSize": 1, "segmentManagerAddressOffset": 2, "segmentId": 4, "heartbeatAddressOffset.m_data": 5}

    def step(st, i):
        if RECV(i):
            for k in list(st):
                if isinstance(k, tuple) and k[0] == "lit":
                    del st[k]
            st["w"] = ()
        if i.op == "store":
            for x in WHERE:
                if re.search(r"^arg2\.%s$" % re.escape(x), f.addr(i)) and x not in st.get("w", ()):
                    st["w"] = st.get("w", ()) + (x,)

    def edge(st, k, pol):
        for n, p in lits.items():
            t = p(k, pol)
            if t is not None and ("lit", n) not in st:
                st[("lit", n)] = t
    rows = []
    for r, st, tr in f.simulate({}, step, edge, phis=f.ret_phis()):
        v = f.ret_value(r, st)
        row = Row(r, (), {k[1]: x for k, x in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st)
        row.lit["ret"] = v.v if isinstance(v, Val) and v.k == "c" else None
        rows.append(row)
    suc = [r for r in rows if r.lit["ret"] == A["SUCCESS"]]
    req_some(cx, f, suc, "the acknowledgement can be received", "ack/some")
    check_rows(cx, f, rows, lambda r: r.lit["ret"] is not None, "the result is known on every path", "ack/result")
    check_rows(cx, f, suc, lambda r: all(r.lit.get(k) is True for k in ["recv", "type", "num", "stamp"] + ["f%d" % k for k in range(1, 6)]), "success only for a complete acknowledgement with the time stamp of the request", "ack/success")
    check_rows(cx, f, rows, lambda r: r.lit["ret"] != A["MALFORMED_RESPONSE"] or any(r.lit.get("f%d" % k) is False for k in range(1, 6)), "an acknowledgement is called malformed only when it is", "ack/malformed")
    check_rows(cx, f, suc, lambda r: {"shmTopicSize", "segmentManagerAddressOffset", "segmentId"} <= set(r.st.get("w", ())) and ("heartbeatAddressOffset.m_data" in r.st["w"]) == (r.lit.get("heart") is False), "size, segment, segment manager and heartbeat are kept", "ack/kept")
    for i in f.ins():
        if i.op == "store":
            for x, k in WHERE.items():
                if re.search(r"^arg2\.%s$" % re.escape(x), f.addr(i)):
                    cx.ob(element(f, i.ops[0]) == k, f, "%s is the respective field of the acknowledgement" % x, "ack/" + x, i)
        if RECV(i):
            cx.ob(f.strip(i.ops[0]) == Val("arg", 1), f, "the acknowledgement is received from the own channel", "ack/channel", i)
            m = f.root_of(i.ops[-1])
            cx.ob(all(f.root_of(j.ops[1] if ELEM(j) else j.ops[0]) is m for j in f.ins() if ELEM(j) or NUM(j)), f, "the message received is looked at", "ack/message", i)
    f = cx.fn("create")
    talk = Talk(cx, f)
    ACK = call(r"IpcRuntimeInterface::waitForRegAck$")
    SEND = call(r"IpcInterface::(timedSend|send)$")
    APP = call(r"IpcInterfaceCreator::create$")
    lits = {"acked": equals(lambda v: isinstance(v, Ins) and ACK(v), v_const(A["SUCCESS"])), "app": exp_ok(APP, True), "empty": truth_of(call(r"^iox::string::empty$", (0, r"^arg1$"))),
            "init": truth_of(lambda i: call(r"IpcInterface::isInitialized$")(i) and made_by(f, f.root_of(i.ops[0]), APP))}
    tags = f.stores(r"^arg0\.m_store\.data\.m_type_index$")

    def step2(st, i):
        if i in tags and isinstance(f.strip(i.ops[0]), Val):
            st["tag"] = f.strip(i.ops[0]).v
        talk.step(st, i)
        if SEND(i):
            m = f.root_of(i.ops[1])
            st["sent"] = (st.get(("msg", getattr(m, "id", None)), ("?",)),)
            st.pop(("lit", "acked"), None)
        if ACK(i):
            st["ackafter"] = st.get("sent")

    def edge2(st, k, pol):
        for n, p in lits.items():
            t = p(k, pol)
            if t is not None:
                if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                    return False
                st[("lit", n)] = t
        return None
    rows = []
    for r, st, tr in f.simulate({}, step2, edge2):
        rows.append(Row(r, (), {k[1]: x for k, x in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st))
    okr = [r for r in rows if r.st.get("tag") == 0]
    req_some(cx, f, okr, "registration can succeed", "create/some")
    check_rows(cx, f, rows, lambda r: r.st.get("tag") in (0, 1) and (r.st["tag"] == 0) == (r.lit.get("acked") is True), "the interface is created iff RouDi acknowledged the request", "create/iff")
    check_rows(cx, f, okr, lambda r: r.lit.get("empty") is False and r.lit.get("app") is True and r.lit.get("init") is True, "only with a name and a channel of its own", "create/channel")

    def reg(r):
        m = (r.st.get("ackafter") or ((),))[0]
        return len(m) == 6 and m[0] == "type:REG" and m[1] == "arg1" and "getpid" in m[2] and "getID" in m[3] and m[5].startswith("ser(") and "version" in m[5]
    check_rows(cx, f, okr, reg, "the request tells name, process, user, time stamp and version", "create/reg")
    for i in matching(f, ACK):
        v = f.strip(i.ops[0])
        a = f.root_of(v.ops[0]) if isinstance(v, Ins) and v.op == "load" else None
        strs = [j for j in f.ins() if j.op == "call" and (j.callee or "") == "iox::convert::toString" and f.root_of(j.ops[1]) is a]
        cx.ob(a is not None and bool(strs), f, "the acknowledgement is compared with the time stamp sent", "create/stamp", i)
        cx.ob(made_by(f, f.root_of(i.ops[1]), APP), f, "the acknowledgement is received from the own channel", "create/own", i)


@P.rule("R5", "a heartbeat is given in each interval and shutdown is announced; RouDi is told about the end of the runtime", min=4)
def r5(cx):
    f = cx.fn("keep")
    talk = Talk(cx, f)
    BEAT = call(r"Heartbeat::beat$")
    SWAP = call(r"Atomic::exchange$", (0, r"^arg0\.m_shutdownRequested"))

    def run(f, lits, events):
        def hk(sim, st, i):
            talk.step(st, i)
            if is_request(f, i):
                m = f.root_of(i.ops[1])
                st["sent"] = st.get("sent", ())[:3] + (st.get(("msg", getattr(m, "id", None)), ("?",)),)
        return Sim(f, {}, events, lits, hook=hk).run({})
    rows = run(f, {"alive": truth_of(load(r"^arg0\.m_heartbeat\.m_hasValue$")), "down": truth_of(SWAP)}, {"beat": BEAT})
    check_rows(cx, f, rows, lambda r: r.n("beat") == (1 if r.lit.get("alive") else 0) and r.lit.get("alive") is not None, "the heartbeat is given iff there is one", "keep/beat")
    check_rows(cx, f, rows, lambda r: r.lit.get("down") is not None and [tuple(m) for m in r.st.get("sent", ())] == ([("type:PREPARE_APP_TERMINATION", "arg0.m_appName")] if r.lit["down"] else []), "preparation of the shutdown is requested iff shutdown was", "keep/prepare")
    for i in matching(f, SWAP):
        cx.ob(v_const(0)(f.strip(i.ops[1])), f, "a shutdown request is consumed", "keep/once", i)
    for f in cx.fns("dtor"):
        if not matching(f, lambda i: is_request(f, i)):
            continue
        talk = Talk(cx, f)
        rows = run(f, {}, {})
        check_rows(cx, f, rows, lambda r: [tuple(m) for m in r.st.get("sent", ())] == [("type:TERMINATION", "arg0.m_appName")], "RouDi is told once that the process ends", "dtor")
        break
    else:
        cx.ob(False, cx.fns("dtor")[0], "RouDi is told once that the process ends", "dtor")
    f = cx.fn("shutdown")
    sts = [i for i in f.ins() if (i.op == "store" and re.search(r"m_shutdownRequested", f.addr(i)) and v_const(1)(f.strip(i.ops[0])))]
    on_all_returns(cx, f, lambda i: i in sts, "a shutdown request is noted", "shutdown")


@P.rule("R6", "each segment is mapped as the segment manager permits, all or none, and what was registered is unregistered before it is unmapped", min=12)
def r6(cx):
    AM, RT, OM = cx.enum("iox::AccessMode"), cx.enum("iox::ResourceType"), cx.enum("iox::OpenMode")
    SE = cx.enum("iox::runtime::SharedMemoryUserError")
    f = cx.fn("shmCreate")
    OPEN = call(r"SharedMemoryUser::openShmSegment$")
    MAPS = call(r"SegmentManager::getSegmentMappings$")
    maps = matching(f, MAPS)
    req_some(cx, f, maps, "the mappings are asked for", "create/maps")
    mv = f.root_of(maps[0].ops[0]) if maps else None
    opens = matching(f, OPEN)

    def elem_of(i):
        q = f.strip(i.ops[3])
        return f.root_of(q.ops[0]) if isinstance(q, Ins) and q.op == "load" else None
    first = [i for i in opens if f.strip(i.ops[3]) == Val("arg", 2)]
    rest = [i for i in opens if i not in first]
    req_some(cx, f, first, "the management segment is mapped", "create/mgmt")
    req_some(cx, f, rest, "the payload segments are mapped", "create/payload")
    for i in first:
        cx.ob(v_const(RT["ICEORYX_DEFINED"])(f.strip(i.ops[4])) and f.strip(i.ops[6]) == Val("arg", 3) and v_const(AM["ReadWrite"])(f.strip(i.ops[7])), f, "the management segment is mapped with its size for reading and writing", "create/how", i)
        nm = f.root_of(i.ops[5])
        cx.ob(isinstance(nm, Ins) and any(w.op == "call" and len(w.ops) > 1 and "SHM_NAME" in f.path(w.ops[1]) for w in f.writers(nm)), f, "the management segment is mapped by its name", "create/name", i)
    for i in maps:
        g = f.strip(i.ops[1])
        u = f.root_of(i.ops[2])
        cx.ob(isinstance(g, Ins) and PTR(g) and f.strip(g.ops[1]) == Val("arg", 4), f, "the segment manager announced is asked", "create/manager", i)
        cx.ob(isinstance(u, Ins) and any(w.op == "store" and isinstance(f.strip(w.ops[0]), Ins) and call(r"PosixUser::getUserOfCurrentProcess$")(f.strip(w.ops[0])) for w in f.writers(u)), f, "the mappings are those of the user of this process", "create/user", i)
        req_before(cx, f, i, lambda j: j in first, "the management segment is mapped before it is read", "create/order")
    mp = re.escape(f.path(mv)) if mv is not None else "^$"
    err = exp_ok(OPEN)
    full = lambda k, pol: pol is False if k[0] in ("ult", "slt") and isinstance(f.strip(k[1]), Ins) and (f.strip(k[1]).callee or "") == "iox::vector::size" else None
    for i in rest:
        p = elem_of(i)
        paths = [f.path(f.strip(i.ops[k])) for k in (3, 5, 6)]
        cx.ob(all(x.endswith(s) for x, s in zip(paths, ("m_segmentId", "m_sharedMemoryName", "m_size"))) and len({re.sub(r"^\*", "", x).rsplit(".", 1)[0] for x in paths}) == 1 and v_const(RT["USER_DEFINED"])(f.strip(i.ops[4])), f, "id, name and size are those of the mapping", "create/fields", i)
        why = covers_vec(f, i, p, mp, either(lambda k, pol: err(k, pol) is False, lambda k, pol: full(k, pol) is True)) if p is not None else "not a loop over the mappings"
        cx.ob(why is None, f, "every mapping is mapped unless it fails: %s" % (why or "ok"), "create/every", i)
    wr = truth_of(load(r"\.m_isWritable$"))

    errs = {i.id: exp_ok(lambda j, i=i: j is i) for i in opens}

    def step(st, i):
        st.pop(("ok", i.id), None)
        if i in rest:
            v = res(f, i.ops[7], st)
            st["mode"] = v.v if isinstance(v, Val) and v.k == "c" else "?"
            st["bad"] = st.get("bad") or st["mode"] != (AM["ReadWrite"] if st.get("wr") else AM["ReadOnly"]) or "wr" not in st
            st.pop("wr", None)
            st["last"] = "open"
        if i in tags and isinstance(f.strip(i.ops[0]), Val):
            st["tag"] = f.strip(i.ops[0]).v
        if i.op == "call" and ((i.callee or "").endswith("SharedMemoryUser::destroy") and f.root_of(i.ops[0]) in vecs or (not i.callee and len(i.ops) == 1 and isinstance(f.strip(i.ops[0]), Ins) and f.strip(i.ops[0]).op == "load")):
            st["clean"] = True
    tags = f.stores(r"^arg0\.m_store\.data\.m_type_index$")
    vecs = {f.root_of(i.ops[1]) for i in opens}

    def edge(st, k, pol):
        t = wr(k, pol)
        if t is not None:
            st["wr"] = t
        for n, e in errs.items():
            t = e(k, pol)
            if t is not None:
                if st.get(("ok", n), t) is not t:
                    return False
                st[("ok", n)] = t
                if not t:
                    st["fail"] = True
        t = full(k, pol)
        if t:
            st["fail"] = True
        return None
    rows = []
    for r, st, tr in f.simulate({}, lambda st, i: step(st, i), edge):
        rows.append(Row(r, (), {k: v for k, v in st.items() if k in ("tag", "fail", "bad", "clean")}, tr, st))
    check_rows(cx, f, rows, lambda r: not r.lit.get("bad"), "a mapping is writable iff the segment manager says so", "create/access")
    check_rows(cx, f, rows, lambda r: r.lit.get("tag") == (1 if r.lit.get("fail") else 0), "it is an error iff a segment could not be mapped", "create/result")
    bad = [r for r in rows if r.lit.get("tag") == 1]
    DESTROY = call(r"SharedMemoryUser::destroy$")
    direct = any(DESTROY(i) and f.root_of(i.ops[0]) in vecs for i in f.ins())
    guard = any(g.search(None, is_ret, DESTROY) is None for g in cx.fns("cleaner"))
    cleanable = direct or guard
    cx.ob(cleanable and any(r.lit.get("clean") for r in bad), f, "what was mapped is released again after an error", "create/clean")
    for i in f.ins():
        if i.op == "call" and re.search(r"^iox::vector::vector$", i.callee or "") and len(i.ops) == 2 and f.root_of(i.ops[1]) in vecs:
            cx.ob(True, f, "the segments mapped are handed over", "create/hand", i)
    f = cx.fn("shmOpen")
    B = lambda n: call(r"PosixSharedMemoryObjectBuilder::%s$" % n)
    NEW = B("create")
    REG = call(r"RelativePointer::registerPtrWithId$")
    KEEP = call(r"^iox::vector::(emplace|push)_back$", (0, r"^arg1$"))
    tag = {"tag": r"^arg0\.m_store\.data\.m_type_index$", "val": r"^arg0\.m_store\.data\.m_storage$"}
    sim = Sim(f, tag, {"new": NEW, "reg": REG, "keep": KEEP}, {"new": exp_ok(NEW, True), "reg": truth_of(REG)})
    rows = sim.run({})
    good = lambda r: r.lit.get("new") is True and r.lit.get("reg") is True
    check_rows(cx, f, rows, lambda r: sim.final(r, "tag") == (0 if good(r) else 1), "success iff mapped and registered", "open/result")
    check_rows(cx, f, rows, lambda r: good(r) or sim.final(r, "val") == (SE["SHM_MAPPING_ERROR"] if r.lit.get("new") is False else SE["RELATIVE_POINTER_MAPPING_ERROR"]), "the error tells what failed", "open/error")
    check_rows(cx, f, rows, lambda r: r.n("keep") == (1 if good(r) else 0) and r.n("new") == 1, "the segment is kept iff so", "open/keep")
    for n, a in (("memorySizeInBytes", 6), ("accessMode", 7)):
        for i in matching(f, B(n)):
            v = f.strip(i.ops[1])
            r = f.root_of(v)
            cx.ob(v == Val("arg", a) or (isinstance(r, Ins) and any(w.op == "store" and f.strip(w.ops[0]) == Val("arg", a) for w in f.writers(r))), f, "%s is as asked for" % n, "open/" + n, i)
        req_some(cx, f, matching(f, B(n)), "%s is given" % n, "open/given/" + n)
    for i in matching(f, B("openMode")):
        r = f.root_of(i.ops[1])
        cx.ob(isinstance(r, Ins) and all(v_const(OM["OpenExisting"])(f.strip(w.ops[0])) for w in f.writers(r) if w.op == "store") or v_const(OM["OpenExisting"])(f.strip(i.ops[1])), f, "only existing segments are opened", "open/existing", i)
    req_some(cx, f, matching(f, B("openMode")), "the mode is given", "open/given/openMode")
    for i in matching(f, REG):
        s = f.root_of(i.ops[0])
        b = f.strip(i.ops[1])
        cx.ob(isinstance(s, Ins) and [f.strip(w.ops[0]) for w in f.writers(s) if w.op == "store"] == [Val("arg", 3)] and isinstance(b, Ins) and (b.callee or "").endswith("getBaseAddress") and made_by(f, f.root_of(b.ops[0]), NEW), f, "the segment's base is registered under its id", "open/register", i)
    f = cx.fn("shmDestroy")
    EMPTY = vec_empty(r"^arg0$")
    POP, UN = call(r"^iox::vector::(pop_back|erase|clear)$", (0, r"^arg0$")), call(r"RelativePointer::unregisterPtr$")
    pops, uns = matching(f, POP), matching(f, UN)
    req_some(cx, f, pops, "segments are unmapped", "destroy/some")
    cx.ob(f.search(None, is_ret, None, lambda k, pol: EMPTY(k, pol) is True) is None, f, "all segments are unmapped", "destroy/all")
    for i in pops:
        cx.ob((i.callee or "").endswith("pop_back"), f, "segments are unmapped one after another", "destroy/each", i)
        cx.ob(f.must_precede(i, UN) is None and f.search(i, lambda j: j is i, UN) is None, f, "a segment is unregistered before it is unmapped", "destroy/unregister", i)
    for i in uns:
        s = f.root_of(i.ops[0])
        ws = [f.strip(w.ops[0]) for w in f.writers(s) if w.op == "store"] if isinstance(s, Ins) else []
        good = len(ws) == 1 and isinstance(ws[0], Ins) and (ws[0].callee or "").endswith("searchId")
        b = f.strip(ws[0].ops[0]) if good else None
        o = f.strip(b.ops[0]) if isinstance(b, Ins) and (b.callee or "").endswith("getBaseAddress") else None
        cx.ob(isinstance(o, Ins) and (o.callee or "") == "iox::vector::back" and f.path(o.ops[0]) == "arg0", f, "the segment unmapped is unregistered", "destroy/which", i)
    f = cx.fn("shmDtor")
    on_all_returns(cx, f, call(r"SharedMemoryUser::destroy$", (0, r"^arg0\.m_shmSegments$")), "all segments are unregistered with the runtime", "dtor")


@P.rule("R7", "no answer makes the runtime unwrap a value that is not there", min=12)
def r7(cx):
    for n in ["req" + k for k in KINDS] + ["get" + k for k in KINDS] + ["getInterface", "convert", "rtSend", "request", "receive", "timedReceive", "send", "timedSend", "shmOpen", "shmCreate", "regAck"]:
        for f in cx.fns(n):
            u = unwraps(f)
            cx.ob(not u, f, "what is unwrapped is known to be there", n, u[0] if u else None)


@P.rule("R8", "segments are mapped and registered with their full size and id", min=4)
def width(cx):
    for n in ("shmCreate", "shmOpen"):
        for f in cx.fns(n):
            wide_sinks(cx, f, r"memorySizeInBytes$|::registerPtr|SharedMemoryUser::openShmSegment$", r"\.m_(size|segmentId)$",
                       "no bits of a segment's size or id are dropped", n)
