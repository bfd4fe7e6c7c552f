from engine.core import Prop
from rules.lib import *

P = Prop("P18")
P.explain = """
RouDi's message handler is tabulated for every message type (constant propagation of the type through all paths): which handler is called
under which conditions on the message, with which fields of it. The handlers of the process manager are tabulated in the same way with
the content of every message they send tracked along the path, so that the answer to each outcome is compared with the protocol."""
R = "iceoryx_posh/source/roudi/"
S = "iceoryx_posh/source/"
P.group("roudi", [R + "roudi.cpp"], opaque=[r"^iox::roudi::ProcessManager::", r"^iox::runtime::(?!.*lambda)", r"^iox::capro::", r"^iox::popo::\w+Options::", r"^iox::Serialization::", r"^iox::convert::", r"^iox::version::", r"^iox::roudi::RouDi::getUniqueSessionIdForProcess$"])
P.root("roudi", "processMessage", "iox::roudi::RouDi::processMessage")
P.root("roudi", "processRuntimeMessages", "iox::roudi::RouDi::processRuntimeMessages")
P.root("roudi", "session", "iox::roudi::RouDi::getUniqueSessionIdForProcess")
P.group("pm", [R + "process_manager.cpp"], opaque=[r"^iox::roudi::(PortManager|Process|ProcessIntrospection\w*|Heartbeat)::", r"^iox::runtime::(?!.*lambda)", r"^iox::convert::", r"^iox::mepoo::", r"^iox::version::", r"^iox::roudi::ProcessManager::(findProcess|searchForProcessAndRemoveIt|removeProcess\w*|addProcess)$", r"^iox::UntypedRelativePointer"])
KINDS = ("Publisher", "Subscriber", "Client", "Server", "ConditionVariable", "Interface")
for n in KINDS:
    P.root("pm", "add" + n, "iox::roudi::ProcessManager::add%sForProcess" % n)
P.root("pm", "addProcess", "iox::roudi::ProcessManager::addProcess")
P.root("pm", "notSupported", "iox::roudi::ProcessManager::sendMessageNotSupportedToRuntime")
P.root("pm", "prepare", "iox::roudi::ProcessManager::handleProcessShutdownPreparationRequest")
P.group("wire", [S + "runtime/ipc_interface_base.cpp", S + "capro/service_description.cpp", S + "popo/publisher_options.cpp", S + "popo/subscriber_options.cpp", S + "popo/client_options.cpp", S + "popo/server_options.cpp", S + "version/version_info.cpp", R + "port_manager.cpp"],
        opaque=[r"^iox::convert::", r"^iox::Serialization::(?!removeFirstEntry)"])
P.root("wire", "strType", "iox::runtime::stringToIpcMessageType")
P.root("wire", "typeStr", r"iox::runtime::IpcMessageTypeToString(\[abi:cxx11\])?")
P.root("wire", "errStr", r"iox::runtime::IpcMessageErrorTypeToString(\[abi:cxx11\])?")
P.root("wire", "strIface", "iox::roudi::StringToCaProInterface")
P.root("wire", "desSvc", "iox::capro::ServiceDescription::deserialize")
for n in ("Publisher", "Subscriber", "Client", "Server"):
    P.root("wire", "des" + n, "iox::popo::%sOptions::deserialize" % n)
P.root("wire", "serSvc", r"iox::capro::ServiceDescription::operator iox::Serialization")
for n in ("Publisher", "Subscriber", "Client", "Server"):
    P.root("wire", "ser" + n, "iox::popo::%sOptions::serialize" % n)
P.root("wire", "compat", "iox::version::VersionInfo::checkCompatibility")
P.group("msg", [S + "runtime/ipc_message.cpp", R + "process_manager.cpp"], opaque=[r"^iox::runtime::IpcMessage::(isValidEntry)$", r"^std::"])
P.root("msg", "addEntry", r"iox::runtime::IpcMessage::addEntry(<.*)?")
P.root("msg", "setMessage", "iox::runtime::IpcMessage::setMessage")
P.root("wire", "entry", "iox::Serialization::removeFirstEntry")

ELEM = call(r"IpcMessage::getElementAtIndex")
NUM = call(r"IpcMessage::getNumberOfElements$")
PM = {"REG": (6, "registerProcess"), "CREATE_PUBLISHER": (5, "addPublisherForProcess"), "CREATE_SUBSCRIBER": (5, "addSubscriberForProcess"),
      "CREATE_CLIENT": (5, "addClientForProcess"), "CREATE_SERVER": (5, "addServerForProcess"), "CREATE_CONDITION_VARIABLE": (2, "addConditionVariableForProcess"),
      "CREATE_INTERFACE": (4, "addInterfaceForProcess"), "PREPARE_APP_TERMINATION": (2, "handleProcessShutdownPreparationRequest"), "TERMINATION": (2, "unregisterProcess")}
HANDLER = re.compile(r"^iox::roudi::ProcessManager::(\w+)$")


def element(f, v, depth=0):
    """index of the message element the value was made from, and the calls on the way"""
    v = f.strip(v)
    if depth > 12 or not isinstance(v, Ins):
        return None
    if v.op == "call":
        if ELEM(v):
            n = f.strip(v.ops[-1])
            return n.v if isinstance(n, Val) and n.k == "c" else None
        for o in v.ops:
            e = element(f, o, depth + 1)
            if e is not None:
                return e
        return None
    if v.op == "load":
        return element(f, v.ops[0], depth + 1)
    if v.op == "phi":
        es = {element(f, o, depth + 1) for o in v.ops if isinstance(f.strip(o), Ins) and f.strip(o) is not v}
        return es.pop() if len(es) == 1 else None
    r = f.root_of(v)
    if isinstance(r, Ins) and r.op == "alloca":
        es = set()
        for w in f.writers(r):
            if w.op == "call" and w.ops and f.root_of(w.ops[0]) is r:
                if ELEM(w):
                    n = f.strip(w.ops[-1])
                    es.add(n.v if isinstance(n, Val) and n.k == "c" else None)
                else:
                    for o in w.ops[1:]:
                        e = element(f, o, depth + 1)
                        if e is not None:
                            es.add(e)
            elif w.op == "store" and f.root_of(w.ops[1]) is r and isinstance(f.strip(w.ops[0]), Ins):
                e = element(f, w.ops[0], depth + 1)
                if e is not None:
                    es.add(e)
        return es.pop() if len(es) == 1 else None
    if isinstance(r, Ins) and r is not v:
        return element(f, r, depth + 1)
    return None


def on_name(f, i):
    return f.strip(i.ops[1] if len(i.ops) > 2 and isinstance(f.root_of(i.ops[0]), Ins) else i.ops[0]) == Val("arg", 3)


@P.rule("R1", "a request is handed to its handler iff the name is valid, the number of fields is right and every field can be read; nothing else has an effect", min=60)
def r1(cx):
    f = cx.fn("processMessage")
    T = cx.enum("iox::runtime::IpcMessageType")
    FIND = lambda i: i.op == "call" and re.search(r"^iox::string::find(_first_of)?$", i.callee or "") is not None and on_name(f, i)
    empty = truth_of(lambda i: i.op == "call" and (i.callee or "") == "iox::string::empty" and f.strip(i.ops[0]) == Val("arg", 3))
    size0 = equals(lambda v: isinstance(v, Ins) and v.op == "call" and (v.callee or "") == "iox::string::size" and f.strip(v.ops[0]) == Val("arg", 3), v_const(0))
    FND = opt_has(FIND)

    def hk(sim, st, i):
        if i.op == "call":
            m = HANDLER.search(i.callee or "")
            if m:
                st["h"] = st.get("h", ()) + ((m.group(1), i.id),)
                st[("vals", i.id)] = tuple(sim.val(o, st) for o in i.ops)
    for name in sorted(T, key=lambda n: T[n]):
        known = PM.get(name)
        k, h = known or (None, "sendMessageNotSupportedToRuntime")
        lits = {"empty": lambda kk, pol: (lambda a: a if a is not None else size0(kk, pol))(empty(kk, pol)), "sep": FND, "svc": exp_ok(call(r"^iox::capro::ServiceDescription::deserialize"), True), "opt": exp_ok(call(r"Options::deserialize"), True)}
        if k:
            lits["num"] = equals(lambda v: isinstance(v, Ins) and NUM(v), v_const(k))
        sim = Sim(f, {"cmd": r"^arg2$", "mode": r"^arg0\.m_roudiConfig\.monitoringMode$", "shares": r"sharesAddressSpaceWithApplications$"}, {"find": FIND}, lits, hook=hk)
        fields = name in ("CREATE_PUBLISHER", "CREATE_SUBSCRIBER", "CREATE_CLIENT", "CREATE_SERVER")
        MM = cx.enum("iox::roudi::MonitoringMode")
        for mode, shares in ([(a, b) for a in sorted(MM.values()) for b in (0, 1)] if name == "REG" else [(MM["ON"], 0)]):
            rows = sim.run({"cmd": T[name], "mode": mode, "shares": shares})
            act = [r for r in rows if r.st.get("h")]
            refuse = lambda r: r.lit.get("empty") is True or r.lit.get("sep") is True or r.lit.get("num") is False or r.lit.get("svc") is False or r.lit.get("opt") is False
            req_some(cx, f, act, "the message is handled", name)
            check_rows(cx, f, rows, lambda r: tuple(x for x, _ in r.st.get("h", ())) == (() if refuse(r) else (h,)), "the handler of %s is called, once, iff the message is valid" % name, name + "/handler")
            check_rows(cx, f, act, lambda r: r.lit.get("empty") is False and r.n("find") > 0 and r.lit.get("sep") is False and (not k or r.lit.get("num") is True) and (not fields or (r.lit.get("svc") is True and r.lit.get("opt") is True)), "name, number of fields and fields were checked before", name + "/checked")
            for r in act:
                for hn, iid in r.st["h"]:
                    i = f.byid[iid]
                    cx.ob(f.strip(i.ops[1]) == Val("arg", 3), f, "the handler acts for the sender of the message", name + "/who", i)
                    if fields:
                        cx.ob([element(f, o) for o in i.ops[2:5]] == [2, 3, 4], f, "service, options and configuration are the respective fields of the message", name + "/fields", i)
                    if name == "CREATE_INTERFACE":
                        cx.ob(element(f, i.ops[2]) == 2, f, "the interface is the respective field of the message", name + "/fields", i)
                    if name == "REG":
                        v = r.st[("vals", iid)]
                        want = int(mode == MM["ON"] and not shares)
                        cx.ob([element(f, i.ops[n]) for n in (2, 3, 5, 7)] == [2, 3, 4, 5], f, "pid, user, time stamp and version are the respective fields of the message", "REG/fields", i)
                        cx.ob(v[4] == want, f, "a process is monitored iff monitoring is on and it has an address space of its own", "REG/monitored", i)
                        cx.ob(isinstance(f.strip(i.ops[6]), Ins) and call(r"getUniqueSessionIdForProcess$")(f.strip(i.ops[6])), f, "each registration has a fresh session", "REG/session", i)
    # every separator is looked for
    used = [i for i in f.ins() if FIND(i)]
    for i in used:
        o = f.strip(i.ops[2] if len(i.ops) > 2 else i.ops[1])
        ok = any("IOX_PATH_SEPARATORS" in f.path(x) for x in (o,)) or f.derives(o, lambda x: isinstance(x, Val) and x.k == "g" and "IOX_PATH_SEPARATORS" in str(x.v)) \
            or any(w.op == "store" and f.derives(w.ops[0], lambda x: isinstance(x, Val) and x.k == "g" and "IOX_PATH_SEPARATORS" in str(x.v)) for w in (f.writers(f.root_of(o)) if isinstance(f.root_of(o), Ins) and f.root_of(o).op == "alloca" else []))
        cx.ob(ok, f, "the name is searched for the path separators", "separators", i)


@P.rule("R2", "each message received is handled once, with its own type and sender", min=3)
def r2(cx):
    f = cx.fn("processRuntimeMessages")
    RECV = call(r"timedReceive$|::receive$")
    H = [i for i in f.ins() if i.op == "call" and (not i.callee or i.callee.endswith("::processMessage")) and len(i.ops) == 4]
    req_some(cx, f, H, "messages are handled", "some")
    for i in H:
        req_guard(cx, f, i, holds(truth_of(RECV)), "a message is handled only when one was received", "received")
        m = f.root_of(i.ops[1])
        cx.ob(any(RECV(r) and any(f.root_of(o) is m for o in r.ops) for r in f.ins() if r.op == "call"), f, "the message handled is the one received", "message", i)
        c = f.root_of(i.ops[2])
        cx.ob(isinstance(c, Ins) and element(f, c) == 0 and any(w.op == "store" and isinstance(f.strip(w.ops[0]), Ins) and call(r"stringToIpcMessageType$")(f.strip(w.ops[0])) for w in f.writers(c)), f, "the type is the first field", "type", i)
        cx.ob(element(f, i.ops[3]) == 1, f, "the sender is the second field", "sender", i)
        cx.ob(f.search(i, lambda j: j in H, RECV) is None, f, "a message is handled once", "once", i)
    ok = [r for r in f.ins() if r.op == "call" and RECV(r)]
    for r in ok:
        w = f.search(r, lambda j: j is r or is_ret(j), lambda j: j in H, lambda k, pol: truth_of(lambda x: x is r)(k, pol) is False)
        cx.ob(w is None, f, "a message received is handled", "handled", r, w)
    f = cx.fn("session")
    for r in matching(f, is_ret):
        v = f.strip(r.ops[0])
        st = [i for i in f.ins() if i.op == "store" and f.strip(i.ops[0]) is v or (i.op == "atomicrmw" and i.rmw == "add")]
        cx.ob(bool(st), f, "the counter of sessions is advanced with each session", "session", r)


# ---------------------------------------------------------------------------------------------- content of the messages sent
def is_add(i):
    return i.op == "call" and "IpcMessage::" in (i.full or "") and re.search(r"IpcMessage::(operator<<|addEntry)", i.full) is not None


def msg_root(f, v):
    v = f.strip(v)
    while isinstance(v, Ins) and v.op == "call" and is_add(v):
        v = f.strip(v.ops[0])
    return f.root_of(v)


class Talk:
    """simulates a handler, recording the entries of each message sent and to whom"""

    def __init__(self, cx, f):
        self.cx, self.f = cx, f
        self.E = cx.enum("iox::runtime::IpcMessageErrorType")
        self.T = cx.enum("iox::runtime::IpcMessageType")

    def const(self, v, st, names):
        v = res(self.f, v, st)
        if isinstance(v, Val) and v.k == "c":
            for n, x in names.items():
                if x == v.v or (x & 0xffffffff) == v.v:
                    return n
        return "?"

    def what(self, v, st):
        """description of the value an entry is made from (address of it)"""
        f = self.f
        r = f.root_of(v)
        if isinstance(r, Ins) and r.op == "alloca":
            s = st.get(("s", r.id))
            if s is not None:
                return s
            w = st.get(("tv", r.id))
            if w is not None:
                return w
        return f.path(v)

    def step(self, st, i):
        f = self.f
        if i.op == "store":
            r = f.root_of(i.ops[1])
            if isinstance(r, Ins) and r.op == "alloca" and f.strip(i.ops[1]) is r:
                v = res(f, i.ops[0], st)
                st[("tv", r.id)] = f.path(v) if isinstance(v, Ins) else str(v)
                if isinstance(v, Ins) and v.op == "call" and (v.callee or "").endswith("::getOffset"):
                    p = f.strip(v.ops[1])
                    sid = f.root_of(v.ops[0])
                    st[("tv", r.id)] = "offset(%s,%s)" % (st.get(("tv", getattr(sid, "id", None)), f.path(v.ops[0])), self.ptr(p))
        if i.op != "call" or not i.callee:
            return None
        r = f.root_of(i.ops[0]) if i.ops else None
        rid = r.id if isinstance(r, Ins) and r.op == "alloca" else None
        if i.callee.startswith("iox::runtime::IpcMessageTypeToString"):
            st[("s", rid)] = "type:" + self.const(i.ops[1], st, self.T)
        elif i.callee.startswith("iox::runtime::IpcMessageErrorTypeToString"):
            st[("s", rid)] = "error:" + self.const(i.ops[1], st, self.E)
        elif re.search(r"::(operator iox::Serialization|serialize)$", i.callee):
            st[("s", rid)] = "ser(%s)" % self.what(i.ops[1], st)
        elif i.callee.startswith("iox::Serialization::toString"):
            st[("s", rid)] = self.what(i.ops[1], st)
        elif i.callee.endswith("VersionInfo::getCurrentVersion"):
            st[("s", rid)] = "version"
        elif i.callee == "iox::convert::toString":
            st[("s", rid)] = self.what(i.ops[1], st)
        elif re.search(r"basic_string::(operator=|basic_string)$", i.callee):
            st[("s", rid)] = self.what(i.ops[1], st) if len(i.ops) > 1 else ""
        elif re.search(r"IpcMessage::(IpcMessage|clearMessage)$", i.callee):
            st[("msg", rid)] = ()
        elif is_add(i):
            m = msg_root(f, i.ops[0])
            if isinstance(m, Ins):
                st[("msg", m.id)] = st.get(("msg", m.id), ())[:8] + (self.what(i.ops[1], st),)
        elif i.callee.endswith("Process::sendViaIpcChannel"):
            m = f.root_of(i.ops[1])
            st["sent"] = st.get("sent", ())[:3] + ((f.path(i.ops[0]), st.get(("msg", getattr(m, "id", None)), ("?",))),)
        return None

    def ptr(self, p):
        """which object the address sent denotes: the value of an acquisition, or an access path"""
        f = self.f
        r = f.root_of(p)
        q = p
        while isinstance(q, Ins) and q.op == "load":
            r = f.root_of(q.ops[0])
            q = f.strip(q.ops[0])
        if isinstance(r, Ins) and r.op == "alloca":
            for w in f.writers(r):
                if w.op == "call" and w.ops and f.root_of(w.ops[0]) is r and "::acquire" in (w.callee or ""):
                    return w.callee.split("::")[-1]
                if w.op == "call" and (w.callee or "").endswith("::emplace"):
                    return "heartbeat"
        if isinstance(p, Ins) and p.op == "call":
            if "::acquire" in (p.callee or ""):
                return p.callee.split("::")[-1]
            if (p.callee or "").endswith("::to_ptr"):
                rr = f.root_of(p.ops[0])
                if isinstance(rr, Ins) and any(w.op == "call" and (w.callee or "").endswith("::emplace") for w in f.writers(rr)):
                    return "heartbeat"
        return f.path(p)

    def rows(self, events, lits):
        f = self.f

        def step(st, i):
            self.step(st, i)
            for n, p in events.items():
                if p(i):
                    ev = st.get("ev", ())
                    if sum(1 for e in ev if e == n) < 2:
                        st["ev"] = ev + (n,)

        def edge(st, k, pol):
            for n, p in lits.items():
                t = p(k, pol)
                if t is not None:
                    if getattr(p, "stable", False) and st.get(("lit", n), t) is not t:
                        return False
                    st[("lit", n)] = t
            return None
        out = []
        for r, st, tr in f.simulate({}, step, edge):
            row = Row(r, st.get("ev", ()), {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit"}, tr, st)
            row.lit["sent"] = str(st.get("sent", ()))
            out.append(row)
        return out


SEG = r"\*?arg0\.m_mgmtSegmentId"


@P.rule("R3", "a request of a registered process is answered exactly once: with the address of what was created or with the error; an unknown process gets nothing", min=40)
def r3(cx):
    PP_ = cx.enum("iox::roudi::PortPoolError")
    FINDP = call(r"ProcessManager::findProcess$")
    for n in KINDS:
        f = cx.fn("add" + n)
        t = Talk(cx, f)
        acq = {"Publisher": "acquirePublisherPortData", "Subscriber": "acquireSubscriberPortData", "Client": "acquireClientPortData", "Server": "acquireServerPortData", "ConditionVariable": "acquireConditionVariableData", "Interface": "acquireInterfacePortData"}[n]
        ACQ = call(r"PortManager::%s$" % acq)
        SEGW = call(r"SegmentManager::getSegmentInformationWithWriteAccessForUser$")
        known, ok, seg = opt_has(FINDP), exp_ok(ACQ, True), opt_has(SEGW)
        known.stable = seg.stable = True
        writes = n in ("Publisher", "Client", "Server")
        lits = {"known": known, "ok": ok}
        if writes:
            lits["seg"] = seg
        errval = {}
        if n == "Publisher":
            for e in ("UNIQUE_PUBLISHER_PORT_ALREADY_EXISTS", "INTERNAL_SERVICE_DESCRIPTION_IS_FORBIDDEN"):
                errval[e] = PP_[e]
        elif n == "ConditionVariable":
            errval["CONDITION_VARIABLE_LIST_FULL"] = PP_["CONDITION_VARIABLE_LIST_FULL"]

        def iserr(v):
            if not (isinstance(v, Ins) and v.op == "load"):
                return False
            r = f.root_of(v.ops[0])
            return isinstance(r, Ins) and f.strip(v.ops[0]) is r and any(w.op == "call" and ACQ(w) and f.root_of(w.ops[0]) is r for w in f.writers(r))
        for e, x in errval.items():
            lits[e] = equals(iserr, v_const(x))
        rows = t.rows({"acquire": ACQ, "anyacquire": call(r"PortManager::acquire")}, lits)
        check_rows(cx, f, rows, lambda r: r.lit.get("known") is not None, "whether the process is known is looked at", n + "/known")
        may = lambda r: r.lit.get("known") and (not writes or r.lit.get("seg") is True)
        check_rows(cx, f, rows, lambda r: r.n("acquire") == r.n("anyacquire") == (1 if may(r) else 0), "it is created iff the process is known" + (" and may write to a segment" if writes else ""), n + "/created")
        check_rows(cx, f, rows, lambda r: len(r.st.get("sent", ())) == (1 if r.lit.get("known") else 0), "the process is answered exactly once", n + "/once")
        for i in f.ins():
            if call(r"Process::sendViaIpcChannel$")(i) or call(r"Process::getUser$")(i):
                q = f.root_of(f.strip(i.ops[0]).ops[0]) if isinstance(f.strip(i.ops[0]), Ins) and f.strip(i.ops[0]).op == "load" else None
                cx.ob(isinstance(q, Ins) and any(w.op == "call" and FINDP(w) for w in f.writers(q)), f, "the process is the one found", n + "/whom", i)
            if FINDP(i):
                cx.ob(f.strip(i.ops[2]) == Val("arg", 1), f, "the sender is looked up", n + "/lookup", i)
        up = {"Publisher": "PUBLISHER", "Subscriber": "SUBSCRIBER", "Client": "CLIENT", "Server": "SERVER", "ConditionVariable": "CONDITION_VARIABLE", "Interface": "INTERFACE"}[n]

        def answer(r):
            if not r.lit.get("known"):
                return True
            m = r.st["sent"][0][1] if r.st.get("sent") else ()
            if writes and r.lit.get("seg") is not True:
                return m == ("type:ERROR_RESPONSE", "error:REQUEST_%s_NO_WRITABLE_SHM_SEGMENT" % up)
            if n != "Interface" and r.lit.get("ok") is not True:
                if r.lit.get("ok") is None:
                    return False
                if n == "Publisher":
                    e = "NO_UNIQUE_CREATED" if r.lit.get("UNIQUE_PUBLISHER_PORT_ALREADY_EXISTS") else "INTERNAL_SERVICE_DESCRIPTION_IS_FORBIDDEN" if r.lit.get("INTERNAL_SERVICE_DESCRIPTION_IS_FORBIDDEN") else "PUBLISHER_LIST_FULL"
                    return m == ("type:ERROR_RESPONSE", "error:" + e) and (e != "PUBLISHER_LIST_FULL" or all(r.lit.get(x) is False for x in errval))
                if n == "ConditionVariable" and not r.lit.get("CONDITION_VARIABLE_LIST_FULL"):
                    return m[:1] == ("type:ERROR_RESPONSE",)
                return m == ("type:ERROR_RESPONSE", "error:%s_LIST_FULL" % up)
            return len(m) == 3 and m[0] == "type:CREATE_%s_ACK" % up and re.fullmatch(r"offset\(%s,%s\)" % (SEG, acq), m[1]) is not None and re.fullmatch(SEG, m[2]) is not None
        check_rows(cx, f, rows, answer, "the answer tells the address of what was created, or why it was not", n + "/answer")
        for i in matching(f, ACQ):
            a = [f.strip(o) for o in i.ops]
            o = 2 if n != "Interface" else 1
            want = {"Publisher": [Val("arg", 2), Val("arg", 3), Val("arg", 1), None, Val("arg", 4)], "Client": [Val("arg", 2), Val("arg", 3), Val("arg", 1), None, Val("arg", 4)],
                    "Server": [Val("arg", 2), Val("arg", 3), Val("arg", 1), None, Val("arg", 4)], "Subscriber": [Val("arg", 2), Val("arg", 3), Val("arg", 1), Val("arg", 4)],
                    "ConditionVariable": [Val("arg", 1)], "Interface": [Val("arg", 2), Val("arg", 1)]}[n]
            got = a[o:o + len(want)]
            cx.ob(all(w is None or w == g for w, g in zip(want, got)), f, "it is created with the requested service, options and owner", n + "/what", i)
            if writes:
                r = got[3]
                q = f.root_of(r.ops[0]) if isinstance(r, Ins) and r.op == "load" else None
                cx.ob(isinstance(q, Ins) and any(w.op == "call" and SEGW(w) for w in f.writers(q)), f, "its memory is the segment the user may write to", n + "/memory", i)
        for i in matching(f, SEGW):
            u = f.root_of(i.ops[2])
            cx.ob(isinstance(u, Ins) and any(w.op == "store" and isinstance(f.strip(w.ops[0]), Ins) and call(r"Process::getUser$")(f.strip(w.ops[0])) for w in f.writers(u)), f, "the segment is looked up for the user of the process", n + "/user", i)
    for rid, ty in (("notSupported", "MESSAGE_NOT_SUPPORTED"), ("prepare", "PREPARE_APP_TERMINATION_ACK")):
        f = cx.fn(rid)
        known = opt_has(FINDP)
        known.stable = True
        rows = Talk(cx, f).rows({}, {"known": known})
        check_rows(cx, f, rows, lambda r: r.lit.get("known") is not None and tuple(m for _, m in r.st.get("sent", ())) == ((("type:" + ty,),) if r.lit["known"] else ()), "the process is answered once iff it is known", rid)


@P.rule("R4", "a process is added iff its version is compatible and there is room, and is told where everything is", min=8)
def r4(cx):
    f = cx.fn("addProcess")
    t = Talk(cx, f)
    COMPAT = call(r"VersionInfo::checkCompatibility$")
    SIZE = lambda v: isinstance(v, Ins) and v.op == "call" and re.search(r"^iox::list::size$", v.callee or "") is not None and re.search(r"m_processList$", f.path(v.ops[0])) is not None
    EMPL = lambda i: i.op == "call" and re.search(r"^iox::list::(emplace|push)_back", i.callee or "") is not None and re.search(r"m_processList$", f.path(i.ops[0])) is not None
    HB = lambda i: i.op == "call" and (i.callee or "").endswith("FixedPositionContainer::emplace") and "m_heartbeatPool" in f.path(i.ops[1])
    room = lambda k, pol: (pol if k[0] in ("ult", "slt") and SIZE(k[1]) and v_const(300)(k[2]) else (not pol) if k[0] in ("ult", "slt") and SIZE(k[2]) and v_const(299)(k[1]) else (not pol) if k[0] == "eq" and SIZE(k[1]) and v_const(300)(k[2]) else pol if k[0] == "b" and isinstance(k[1], Ins) and (k[1].callee or "") == "iox::list::full" and False else None)
    mon = truth_of(lambda i: False)
    monl = lambda k, pol: pol if k[0] == "b" and f.strip(k[1]) == Val("arg", 4) else None
    SEND = call(r"Process::sendViaIpcChannel$")
    rows = t.rows({"add": EMPL, "hb": HB, "send": SEND}, {"compat": truth_of(COMPAT), "room": room, "mon": monl})
    for r in rows:
        v = f.ret_value(r.ret, r.st)
        r.lit["ret"] = bool(v.v) if isinstance(v, Val) and v.k == "c" else None
    good = lambda r: r.lit.get("compat") is True and r.lit.get("room") is True
    check_rows(cx, f, rows, lambda r: r.lit["ret"] is good(r), "success is reported iff the version is compatible and there is room", "result")
    check_rows(cx, f, rows, lambda r: r.n("add") == r.n("send") == (1 if good(r) else 0), "the process is added and answered once, iff so", "added")
    check_rows(cx, f, rows, lambda r: r.n("hb") == (1 if good(r) and r.lit.get("mon") else 0) and (not good(r) or r.lit.get("mon") is not None), "it gets a heartbeat iff it is monitored", "heartbeat")
    check_rows(cx, f, rows, lambda r: not r.n("add") or (r.before("hb", "add") and r.before("add", "send")), "it is answered after it was added", "order")
    for r in rows:
        if not good(r):
            continue
        m = r.st["sent"][0][1] if r.st.get("sent") else ()
        ok = len(m) == 6 and m[0] == "type:REG_ACK" and "size(" in m[1] and re.fullmatch(r"offset\(%s,\*?arg0\.m_segmentManager\)" % SEG, m[2]) is not None and re.search(r"^arg:?5$", m[3]) is not None and re.fullmatch(SEG, m[4]) is not None \
            and (re.fullmatch(r"offset\(%s,heartbeat\)" % SEG, m[5]) is not None if r.lit.get("mon") else re.search(r"18446744073709551615|-1\b", m[5]) is not None)
        cx.ob(ok, f, "the acknowledgement tells segment size, segment manager, time stamp, segment and heartbeat: %s" % (m,), "ack", r.ret)
    for i in matching(f, COMPAT):
        cx.ob(f.strip(i.ops[1]) == Val("arg", 7) and re.search(r"m_compatibilityCheckLevel$", f.path(i.ops[2])) is not None and any(w.op == "call" and (w.callee or "").endswith("getCurrentVersion") for w in f.writers(f.root_of(i.ops[0]))), f, "RouDi's version is compared with the version of the application at the configured level", "compat", i)
    for i in matching(f, EMPL):
        idx = f.root_of(i.ops[5])
        names = [f.path(o) for o in i.ops[1:]]
        cx.ob(names[0] == "arg1" and names[3] == "arg3" and isinstance(f.root_of(i.ops[3]), Ins) and any(w.op == "store" and f.strip(w.ops[0]) == Val("arg", 2) for w in f.writers(f.root_of(i.ops[3]))) and any(w.op == "store" and f.strip(w.ops[0]) == Val("arg", 6) for w in f.writers(f.root_of(i.ops[6]))), f, "name, pid, user and session of the process are kept", "kept", i)
        cx.ob(isinstance(idx, Ins) and any(w.op == "store" and isinstance(f.strip(w.ops[0]), Ins) and (f.strip(w.ops[0]).callee or "").endswith("::to_index") for w in f.writers(idx)), f, "its heartbeat is kept", "keptbeat", i)
    for i in matching(f, SEND):
        v = f.strip(i.ops[0])
        cx.ob(isinstance(v, Ins) and v.op == "call" and re.search(r"::(back|emplace_back)$", v.callee or "") is not None, f, "the process added is answered", "answered", i)


# ---------------------------------------------------------------------------------------------- wire format
def ranged(isx, lo, hi):
    """literals: lo <= x, x <= hi (signed or unsigned comparisons, either direction)"""
    def c(v, n):
        return isinstance(v, Val) and v.k == "c" and (v.v == n or v.v == n % (1 << 32) or v.v == n % (1 << 64) or v.v == n % (1 << 16))

    def low(k, pol):
        if k[0] == "slt" and c(k[1], lo - 1) and isx(k[2]):
            return pol
        if k[0] == "slt" and isx(k[1]) and c(k[2], lo):
            return not pol
        return high(k, pol) if k[0] == "ult" and lo == 0 and high(k, pol) else None

    def high(k, pol):
        if k[0] in ("slt", "ult") and isx(k[1]) and c(k[2], hi + 1):
            return pol
        if k[0] in ("slt", "ult") and c(k[1], hi) and isx(k[2]):
            return not pol
        return None
    return low, high


@P.rule("R5", "names of types and interfaces outside their range are not accepted", min=6)
def r5(cx):
    T, I = cx.enum("iox::runtime::IpcMessageType"), cx.enum("iox::capro::Interfaces")
    FS = call(r"^iox::convert::from_string")
    for rid, lo, hi, other in (("strType", T["BEGIN"] + 1, T["END"] - 1, T["NOTYPE"]), ("strIface", 0, I["INTERFACE_END"] - 1, I["INTERNAL"])):
        f = cx.fn(rid)

        def isx(v):
            v = f.strip(v) if isinstance(v, Ins) else v
            if not (isinstance(v, Ins) and v.op == "load"):
                return False
            r = f.root_of(v.ops[0])
            return isinstance(r, Ins) and re.search(r"\+\d+$", f.path(v.ops[0])) is not None and any(w.op == "call" and FS(w) for w in f.writers(r))
        low, high = ranged(isx, lo, hi)
        has = opt_has(FS)
        has.stable = True
        rows = table(f, {}, {"has": has, "low": low, "high": high})
        good = lambda r: r.lit.get("has") is True and r.lit.get("low") is True and r.lit.get("high") is True
        bad = lambda r: False in (r.lit.get("has"), r.lit.get("low"), r.lit.get("high"))
        val = lambda r: res(f, r.ret.ops[0], r.st)
        check_rows(cx, f, rows, lambda r: good(r) or bad(r), "presence and range of the number are checked", rid + "/checked")
        check_rows(cx, f, [r for r in rows if good(r)], lambda r: isx(val(r)), "a number in range is returned", rid + "/good")
        check_rows(cx, f, [r for r in rows if not good(r)], lambda r: v_const(other)(val(r)), "anything else is replaced", rid + "/bad")
    for rid in ("typeStr", "errStr"):
        f = cx.fn(rid)
        c = matching(f, call(r"^iox::convert::toString"))
        for i in c:
            a = f.root_of(i.ops[1])
            cx.ob(isinstance(a, Ins) and [f.strip(w.ops[0]) for w in f.writers(a) if w.op == "store"] == [Val("arg", 1)], f, "the number of the type is sent", rid, i)
        req_some(cx, f, c, "the number of the type is sent", rid)


def offsets_created(f):
    """offsets of the fields handed to Serialization::create, in order"""
    s = Sim(f, {})
    out = []
    for i in f.ins():
        if i.op == "call" and re.search(r"^iox::Serialization::create", i.callee or ""):
            for o in i.ops[1:]:
                l = s.loc(o, {})
                if l and l[0] == "arg1":
                    out.append(l[1])
                    continue
                r = f.root_of(o)
                w = [x for x in f.writers(r) if x.op == "store"] if isinstance(r, Ins) and r.op == "alloca" else []
                v = f.strip(w[0].ops[0]) if len(w) == 1 else None
                l = s.loc(v.ops[0], {}) if isinstance(v, Ins) and v.op == "load" else None
                out.append(l[1] if l and l[0] == "arg1" else None)
    return out


def offsets_extracted(f):
    """(offset in the object, local variable or None) of the destinations handed to Serialization::extract, in order"""
    s = Sim(f, {})
    ex = [i for i in f.ins() if i.op == "call" and re.search(r"^iox::Serialization::extract", i.callee or "")]
    out = []
    for i in ex:
        objs = {}
        for o in i.ops[1:]:
            l = s.loc(o, {})
            r = f.root_of(o)
            out.append((l, r))
        res_ = []
        for l, r in out:
            st = [x for x in f.ins() if x.op == "store" and isinstance(f.strip(x.ops[0]), Ins) and f.strip(x.ops[0]).op == "load" and f.root_of(f.strip(x.ops[0]).ops[0]) is r and f.root_of(x.ops[1]) is not r]
            small = isinstance(r, Ins) and not any(l2 is not None and l2[0] == l[0] and l2[1] != l[1] for l2, r2 in out) and st and re.fullmatch(r"i\d+", r.d.get("aty", r.d.get("vty", "")) or "i8")
            if small:
                res_.append((s.loc(st[0].ops[1], {})[1], r))
            else:
                res_.append((l[1], None))
        return ex, res_
    return ex, []


@P.rule("R6", "what is serialized is what is read back, field by field, and enumerations out of range are refused", min=20)
def r6(cx):
    SC, IF = cx.enum("iox::capro::Scope"), cx.enum("iox::capro::Interfaces")
    Q, C = cx.enum("iox::popo::QueueFullPolicy"), cx.enum("iox::popo::ConsumerTooSlowPolicy")
    limits = {"Svc": [SC["INVALID"] - 1, IF["INTERFACE_END"] - 1], "Publisher": [max(C.values())], "Subscriber": [max(Q.values())], "Client": [max(Q.values()), max(C.values())], "Server": [max(Q.values()), max(C.values())]}
    for n, lim in limits.items():
        fs, fd = cx.fn("ser" + n), cx.fn("des" + n)
        a = offsets_created(fs)
        ex, b = offsets_extracted(fd)
        cx.ob(bool(a) and None not in a and len(set(a)) == len(a), fs, "every field is serialized once", n + "/ser")
        cx.ob(a == [x for x, _ in b], fd, "the fields are read back in the order they were written (%s, %s)" % (a, [x for x, _ in b]), n + "/order")
        loc = [r for _, r in b if r is not None]
        cx.ob(len(loc) == len(lim), fd, "enumerations are read as numbers first", n + "/enums")
        lits = {"ok": truth_of(lambda i: i in ex)}
        for j, (r, h) in enumerate(zip(loc, lim)):
            isx = lambda v, r=r: isinstance(v, (Ins,)) and isinstance(fd.strip(v), Ins) and fd.strip(v).op == "load" and fd.root_of(fd.strip(v).ops[0]) is r
            lits["in%d" % j] = ranged(isx, 0, h)[1]
        rows = exp_rows(fd, {}, lits)
        check_rows(cx, fd, rows, lambda r: (r.lit["ret"] == "ok" and all(r.lit.get(x) is True for x in lits)) or (r.lit["ret"] == "err" and any(r.lit.get(x) is False for x in lits)), "the object is returned iff everything could be read and is in range", n + "/result")
    f = cx.fn("entry")
    FIND, FS, SZ = call(r"basic_string::find(_first_of)?$"), call(r"^iox::convert::from_string"), call(r"basic_string::(size|length)$")
    pos = [i for i in f.ins() if FIND(i)]
    islen = lambda v: isinstance(v, Ins) and v.op == "load" and re.search(r"\+\d+$", f.path(v.ops[0])) is not None and any(w.op == "call" and FS(w) for w in f.writers(f.root_of(v.ops[0])))
    lens = [i for i in f.ins() if islen(i)]
    LEN = {x for i in lens for x in f.affine(i)}

    def fits(k, pol):
        """length <= size - pos - 1, computed without wrapping around"""
        if k[0] not in ("ult",):
            return None
        L = list(LEN)

        def parts(v):
            d = dict(f.affine(v))
            l = [x for x in L if d.get(x)]
            return d, l
        da, la = parts(k[1])
        db, lb = parts(k[2])

        def room(d, c):
            d = {x: sgn(v) for x, v in d.items()}
            one = d.pop(1, 0)
            pp = [x for x in d if x[0] == "v" and f.byid.get(x[1]) in pos]
            ss = [x for x in d if x[0] == "v" and isinstance(f.byid.get(x[1]), Ins) and SZ(f.byid[x[1]])]
            return len(d) == 2 and len(pp) == 1 and len(ss) == 1 and d[pp[0]] == -1 and d[ss[0]] == 1 and one == c
        if lb and not la and db == {lb[0]: 1} and room(da, -1):
            return not pol     # room < length
        if la and not lb and da == {la[0]: 1} and room(db, 0):
            return pol         # length < room + 1
        return None
    found = lambda k, pol: (not pol) if k[0] == "eq" and k[1] in pos and isinstance(k[2], Val) and k[2].k == "c" and k[2].v in (-1, (1 << 64) - 1) else None
    has = opt_has(FS)
    has.stable = True
    rows = bool_rows(f, {}, {"found": found, "num": has, "fits": fits})
    check_rows(cx, f, rows, lambda r: r.lit["ret"] is (r.lit.get("found") is True and r.lit.get("num") is True and r.lit.get("fits") is True), "an entry is read iff its length is present, is a number and is not more than what is left", "entry/result")
    sub = [i for i in f.ins() if i.op == "call" and re.search(r"basic_string::substr$", i.callee or "")]
    firsts = [i for i in sub if lens and pos and any(f.affine(i.ops[3]) == {l: 1} for l in LEN) and f.affine(i.ops[2]) == {("v", pos[0].id): 1, 1: 1}]
    rests = [i for i in sub if lens and pos and any(f.affine(i.ops[2]) == {("v", pos[0].id): 1, l: 1, 1: 1} for l in LEN)]
    for what, l, dest in (("the entry", firsts, 0), ("the rest", rests, 1)):
        ok = bool(l) and any(i.op == "call" and (i.callee or "").endswith("operator=") and f.strip(i.ops[0]) == Val("arg", dest) and f.root_of(i.ops[1]) is f.root_of(l[0].ops[0]) for i in f.ins())
        cx.ob(ok, f, "%s is what follows" % what, "entry/" + what[4:])


@P.rule("R7", "versions are compatible iff they agree in all parts of the configured level", min=6)
def r7(cx):
    f = cx.fn("compat")
    L = cx.enum("iox::version::CompatibilityCheckLevel")
    base = ["m_valid", "m_versionMajor"]
    need = {"OFF": [], "MAJOR": base, "MINOR": base + ["m_versionMinor"], "PATCH": base + ["m_versionMinor", "m_versionPatch"],
            "COMMIT_ID": base + ["m_versionMinor", "m_versionPatch", "m_versionTweak", "m_commitIdString"],
            "BUILD_DATE": base + ["m_versionMinor", "m_versionPatch", "m_versionTweak", "m_commitIdString", "m_buildDateString"]}

    def cmp_(fld):
        def p(k, pol):
            if k[0] != "eq":
                return None
            a, b = k[1], k[2]
            if isinstance(a, Ins) and a.op == "call" and re.search(r"^iox::string::compare", a.callee or "") and v_const(0)(b):
                x, y = f.path(a.ops[0]), f.path(a.ops[1])
            elif isinstance(a, Ins) and isinstance(b, Ins):
                x, y = f.path(f.strip(a)).lstrip("*"), f.path(f.strip(b)).lstrip("*")
            else:
                return None
            return pol if {x, y} == {"arg0." + fld, "arg1." + fld} else None
        return p
    allf = need["BUILD_DATE"]
    lits = {x: cmp_(x) for x in allf}
    for n, flds in need.items():
        sim = Sim(f, {}, {}, lits, args={2: "level"})
        rows = sim.run({"level": L[n]})
        for r in rows:
            v = res(f, r.ret.ops[0], r.st)
            r.lit["ret"] = bool(v.v) if isinstance(v, Val) and v.k == "c" else None
        rows = split_bool(f, rows, lits)
        check_rows(cx, f, rows, lambda r: isinstance(r.lit.get("ret"), bool) and r.lit["ret"] is (not any(r.lit.get(x) is False for x in allf)) and (not r.lit["ret"] or all(r.lit.get(x) is True for x in flds)) and all(x in flds for x in allf if x in r.lit), "level %s compares %s" % (n, flds), "compat/" + n)


@P.rule("R8", "an entry that contains the separator invalidates the message, any other is appended and counted", min=3)
def r8(cx):
    for f in cx.fns("addEntry"):
        valid = truth_of(call(r"IpcMessage::isValidEntry$"))
        npos = lambda k, pol: pol if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "call" and re.search(r"basic_string::find", k[1].callee or "") and isinstance(k[2], Val) and k[2].v in (-1, (1 << 64) - 1) else None
        lit = lambda k, pol: (lambda a: a if a is not None else npos(k, pol))(valid(k, pol))
        count = lambda i: i.op == "store" and re.search(r"m_numberOfElements$", f.addr(i)) is not None and any(adiff(f, i.ops[0], l) == {1: 1} for l in reads_of(f, r"m_numberOfElements$"))
        rows = table(f, {"append": call(r"basic_string::(append|operator\+=)$", (0, r"m_msg$")), "count": count, "flag": store(r"m_isValid$", v_const(0)), "any": lambda i: i.op == "store" and re.search(r"m_isValid$|m_numberOfElements$", f.addr(i)) is not None}, {"valid": lit})
        check_rows(cx, f, rows, lambda r: r.lit.get("valid") is not None and ((r.n("append"), r.n("count"), r.n("flag")) == ((1, 1, 0) if r.lit["valid"] else (0, 0, 1))), "a valid entry is appended and counted, an invalid one marks the message", "addEntry")
    f = cx.fn("setMessage")
    rows = finals(f, {"valid": r"m_isValid$", "num": r"m_numberOfElements$"}, {}, {"empty": truth_of(call(r"basic_string::empty$")), "sep": lambda k, pol: pol if k[0] == "eq" and any(isinstance(x, Ins) and f.mentions(x, r"::back$|\[\]|::at$|operator\[\]|rbegin") for x in k[1:]) else None})
    check_rows(cx, f, rows, lambda r: v_const(1 if (r.lit.get("empty") or r.lit.get("sep")) else 0)(r.lit["valid"]), "a message without final separator is invalid", "setMessage/valid")
    check_rows(cx, f, rows, lambda r: v_const(0)(r.lit["num"]) if not (r.lit.get("empty") or r.lit.get("sep")) else isinstance(r.lit["num"], Ins), "an invalid message has no fields", "setMessage/num")


@P.rule("R9", "no content of a message makes RouDi unwrap a value that is not there", min=20)
def r9(cx):
    names = ["processMessage", "processRuntimeMessages", "addProcess", "notSupported", "prepare", "strType", "typeStr", "errStr", "strIface", "desSvc", "entry", "addEntry", "setMessage"] + ["add" + n for n in KINDS] + ["des" + n for n in ("Publisher", "Subscriber", "Client", "Server")]
    for n in names:
        for f in cx.fns(n):
            u = unwraps(f)
            cx.ob(not u, f, "what is unwrapped is known to be there", n, u[0] if u else None)
