from engine.core import Prop
from rules.lib import *
from rules.lists import Walk

P = Prop("P16")
P.explain = """
For every list of ports, condition variables, processes and heartbeats the function walks, a per-element decision table is computed
(conditions decided about an element, operations performed on it, whether the walk can be left) and compared with the contract:
elements of the ended process are destroyed, others are not touched, no element is skipped and none is used after its removal.
Destruction of a port is an ordered protocol: withdraw, take the message, tell the registry and all peers, release the chunks, remove."""
R = "iceoryx_posh/source/roudi/"
D = "iceoryx_posh/source/popo/ports/"
INTERNAL = r"^iox::roudi::PortManager::(doDiscoveryFor\w+|destroy\w+Port|sendToAllMatching\w+|isCompatible\w+|(add|remove)(Publisher|Server)(To|From)ServiceRegistry|publishServiceRegistry|handle\w+|isInternal|doesViolateCommunicationPolicy)$"
OPQ = [r"^iox::popo::(?!.*lambda)", r"^iox::roudi::(PortPool|ServiceRegistry|PortIntrospection\w*|ProcessIntrospection\w*)::", r"^iox::capro::", INTERNAL]
P.group("m", [R + "port_manager.cpp"], opaque=OPQ)
for n in ("deletePortsOfProcess", "destroyPublisherPort", "destroySubscriberPort", "destroyClientPort", "destroyServerPort", "unblockProcessShutdown", "unblockRouDiShutdown", "handlePublisherPorts", "handleSubscriberPorts", "handleServerPorts", "handleClientPorts", "handleInterfaces", "handleConditionVariables", "doDiscovery"):
    P.root("m", n, "iox::roudi::PortManager::" + n)
P.group("pool", [R + "port_pool.cpp"], opaque=[r"^iox::popo::(?!.*(lambda|PortPool::))", r"^iox::capro::"])
KIND = {"Publisher": "publisher", "Subscriber": "subscriber", "Client": "client", "Server": "server", "Interface": "interface", "Cond": "conditionVariable"}
for n in ("Publisher", "Subscriber", "Client", "Server"):
    P.root("pool", "get" + n, "iox::roudi::PortPool::get%sPortDataList" % n)
    P.root("pool", "rm" + n, "iox::roudi::PortPool::remove%sPort" % n)
    P.root("pool", "add" + n, "iox::roudi::PortPool::add%sPort" % n)
P.root("pool", "getInterface", "iox::roudi::PortPool::getInterfacePortDataList")
P.root("pool", "rmInterface", "iox::roudi::PortPool::removeInterfacePort")
P.root("pool", "addInterface", "iox::roudi::PortPool::addInterfacePort")
P.root("pool", "getCond", "iox::roudi::PortPool::getConditionVariableDataList")
P.root("pool", "rmCond", "iox::roudi::PortPool::removeConditionVariableData")
P.root("pool", "addCond", "iox::roudi::PortPool::addConditionVariableData")
P.group("ports", [D + n + ".cpp" for n in ("publisher_port_roudi", "subscriber_port_roudi", "client_port_roudi", "server_port_roudi")], opaque=[r"^iox::popo::Chunk(Sender|Receiver|Distributor|QueuePopper)::"])
for n in ("Publisher", "Subscriber", "Client", "Server"):
    P.root("ports", "rel" + n, "iox::popo::%sPortRouDi::releaseAllChunks" % n)
P.group("pm", [R + "process_manager.cpp"], opaque=[r"^iox::roudi::(PortManager|Process|ProcessIntrospection\w*|Heartbeat)::", r"^iox::runtime::(?!.*lambda)", r"^iox::version::", r"^iox::roudi::ProcessManager::(addProcess|searchForProcessAndRemoveIt|removeProcessAndDeleteRespectiveSharedMemoryObjects|findProcess|requestShutdownOfProcess|probeProcessAliveWithSigTerm|monitorProcesses|discoveryUpdate)$",
                                                   r"^iox::(UntypedRelativePointer|PosixCallBuilder|detail::PosixCall\w*)"])
for n in ("removeProcessAndDeleteRespectiveSharedMemoryObjects", "searchForProcessAndRemoveIt", "monitorProcesses", "registerProcess", "unregisterProcess", "handleProcessShutdownPreparationRequest", "requestShutdownOfAllProcesses", "probeRegisteredProcessesAliveWithSigTerm", "killAllProcesses", "run", "findProcess", "discoveryUpdate"):
    P.root("pm", n, "iox::roudi::ProcessManager::" + n)

LIST = {n: r"get%sPortDataList\(" % n for n in ("Publisher", "Subscriber", "Client", "Server", "Interface")}
LIST["Cond"] = r"getConditionVariableDataList\("
DESTROY = {n: call(r"PortManager::destroy%sPort$" % n) for n in ("Publisher", "Subscriber", "Client", "Server")}
DESTROY["Interface"] = call(r"PortPool::removeInterfacePort$")
DESTROY["Cond"] = call(r"PortPool::removeConditionVariableData$")
ANYDESTROY = anyof(*DESTROY.values())


def is_name(f, v):
    v = f.strip(v)
    return isinstance(v, Ins) and (re.search(r"m_runtimeName$", f.path(v)) is not None or (v.op == "call" and (v.callee or "").endswith("::getRuntimeName")))


def is_pname(f, v):
    """process name: returned object of Process::getName"""
    r = f.root_of(v)
    return isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and (w.callee or "").endswith("Process::getName") for w in f.writers(r)) or is_name(f, v) or re.search(r"m_name$", f.path(v)) is not None


def cmp_strings(k):
    """the two strings compared by the literal key, or None"""
    if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "call" and re.search(r"^iox::string::(compare|operator==)", k[1].callee or "") and v_const(0)(k[2]):
        return k[1].ops[:2], "==" not in k[1].callee
    if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and re.search(r"^iox::(string::)?operator==", k[1].callee or ""):
        return k[1].ops[:2], True
    return None


def mine(arg, named=is_name):
    def p(w, st, k, pol):
        c = cmp_strings(k)
        if c is None:
            return None
        (a, b), sign = c
        for x, y in ((a, b), (b, a)):
            if w.f.strip(x) == Val("arg", arg) and named(w.f, y):
                return w.elem(y, st), pol == sign
        return None
    return p


def destroy_ev(w, st, i):
    if not ANYDESTROY(i):
        return None
    e = w.elem(i.ops[1], st)
    return e if e is not None and DESTROY[e[0]](i) else "other"


def elem_call(rx, arg):
    c = call(rx)

    def p(w, st, i):
        if not c(i):
            return None
        return w.elem(i.ops[arg], st) or "other"
    return p


@P.rule("R1", "deleting the ports of a process visits every list completely, destroys exactly its elements and never touches one after its removal", min=18)
def r1(cx):
    f = cx.fn("deletePortsOfProcess")
    w = Walk(f, LIST, {"mine": mine(1)}, {"destroy": destroy_ev}, kills=("destroy",))
    w.check(cx, lambda r: r.lit.get("mine") is not None and r.ev == (("destroy",) if r.lit["mine"] else ()), "an element is destroyed exactly when it belongs to the process", "delete")


@P.rule("R2", "destroying a port withdraws it, tells the registry and all peers, gives back its chunks and then removes it", min=20)
def r2(cx):
    for n, stop, send, unreg in (("Publisher", r"PublisherPortUser::stopOffer$", "sendToAllMatchingSubscriberPorts", "removePublisherFromServiceRegistry"),
                                 ("Subscriber", r"SubscriberPortUser::unsubscribe$", "sendToAllMatchingPublisherPorts", None),
                                 ("Client", r"ClientPortUser::disconnect$", "sendToAllMatchingServerPorts", None),
                                 ("Server", r"ServerPortUser::stopOffer$", "sendToAllMatchingClientPorts", "removeServerFromServiceRegistry")):
        f = cx.fn("destroy%sPort" % n)

        def obj(i, a, f=f):
            """the operand is a port object made from the port to destroy"""
            r = f.root_of(i.ops[a])
            return f.strip(i.ops[a]) == Val("arg", 1) or (isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and len(w.ops) > 1 and f.strip(w.ops[1]) == Val("arg", 1) and f.root_of(w.ops[0]) is r for w in f.writers(r)))
        MSG = call(r"::tryGetCaProMessage$")

        def frommsg(v, f=f):
            r = f.root_of(v)
            out, todo = set(), [r]
            while todo:
                r = todo.pop()
                if isinstance(r, Ins) and r.op == "alloca" and r.id not in out:
                    out.add(r.id)
                    for w in f.writers(r):
                        if w.op == "call" and MSG(w):
                            return True
                        if w.op == "call" and len(w.ops) > 1 and f.root_of(w.ops[0]) is r:
                            todo.append(f.root_of(w.ops[1]))
            return False
        ev = {"stop": lambda i, c=call(stop): c(i) and obj(i, 0), "msg": lambda i: MSG(i) and obj(i, 1),
              "send": lambda i, c=call("PortManager::%s$" % send): c(i) and frommsg(i.ops[1]) and obj(i, 2),
              "iface": lambda i, c=call("PortManager::sendToAllMatchingInterfacePorts$"): c(i) and frommsg(i.ops[1]),
              "release": lambda i, c=call(r"::releaseAllChunks$"): c(i) and obj(i, 0),
              "remove": lambda i, c=call(r"PortPool::remove%sPort$" % n): c(i) and f.strip(i.ops[1]) == Val("arg", 1)}
        has = opt_has(MSG)
        has.stable = True
        if unreg:
            ev["unreg"] = lambda i, c=call("PortManager::%s$" % unreg): c(i) and frommsg(i.ops[1])
        rows = table(f, ev, {"has": has})
        told = {"send"} | ({"iface", "unreg"} if unreg else set())
        check_rows(cx, f, rows, lambda r: r.ev[:2] == ("stop", "msg"), "the port is withdrawn before its message is taken", n + "/withdraw")
        check_rows(cx, f, rows, lambda r: r.lit.get("has") is not None, "whether there is a message is looked at", n + "/has")
        check_rows(cx, f, rows, lambda r: all(r.n(x) == (1 if r.lit.get("has") else 0) for x in told), "every peer, the registry and the interfaces are told once when there is something to tell", n + "/told")
        check_rows(cx, f, rows, lambda r: r.n("release") == 1 and r.n("remove") == 1, "the chunks are given back and the port is removed, once", n + "/once")
        check_rows(cx, f, rows, lambda r: r.ev[-1] == "remove" and r.before("msg", "release") and (n == "Publisher" or r.before("send", "release")), "the chunks are given back after the peers were told and before the port is removed", n + "/order")
        req_some(cx, f, [r for r in rows if r.lit.get("has")], "peers are told", n + "/some")


OFFREQ = r"m_offeringRequested(\.m_value)?$"


def off_ev(w, st, i):
    f = w.f
    if i.op == "store" and re.search(OFFREQ, f.addr(i)):
        return (w.elem(i.ops[1], st) or "other") if v_const(0)(f.strip(i.ops[0])) else "other"
    if i.op == "call" and re.search(r"(Publisher|Server)PortUser::stopOffer$", i.callee or ""):
        return w.elem(i.ops[0], st) or "other"
    return None


@P.rule("R3", "before a process or RouDi shuts down every blocked sender is released: offering is withdrawn and its consequences are distributed", min=12)
def r3(cx):
    for rid, lits in (("unblockProcessShutdown", {"mine": mine(1)}), ("unblockRouDiShutdown", {})):
        f = cx.fn(rid)
        for n in ("Publisher", "Server"):
            w = Walk(f, {n: LIST[n]}, lits, {"off": lambda w, st, i: (lambda e: None if e == "other" else e)(off_ev(w, st, i)), "disc": lambda w, st, i, c=elem_call(r"PortManager::doDiscoveryFor%sPort$" % n, 1): c(w, st, i)})
            w.check(cx, lambda r: (r.lit.get("mine") is not None or not lits) and r.ev == (("off", "disc") if r.lit.get("mine", not lits) else ()), "offering is withdrawn and distributed exactly for the ports concerned", rid)


@P.rule("R4", "discovery handles every port and destroys exactly those whose destruction was requested", min=15)
def r4(cx):
    def dying(w, st, k, pol):
        if k[0] in ("b", "eq"):
            v = w.f.strip(k[1]) if isinstance(k[1], Ins) else None
            if k[0] == "eq" and not v_const(0, 1)(k[2]):
                return None
            if k[0] == "eq" and k[2].v == 0:
                pol = not pol
            if isinstance(v, Ins) and v.op == "call" and (v.callee or "").endswith("::toBeDestroyed"):
                return w.elem(v.ops[0], st), pol
            if isinstance(v, Ins) and v.op == "load" and re.search(r"m_toBeDestroyed(\.m_value)?$", w.f.addr(v)):
                return w.elem(v.ops[0], st), pol
        return None
    for n in ("Publisher", "Subscriber", "Client", "Server"):
        f = cx.fn("handle%sPorts" % n)
        w = Walk(f, {n: LIST[n]}, {"dying": dying}, {"destroy": destroy_ev, "disc": elem_call(r"PortManager::doDiscoveryFor\w+Port$", 1)}, kills=("destroy",))
        w.check(cx, lambda r: r.lit.get("dying") is not None and (r.ev in (("disc", "destroy"), ("destroy",)) if r.lit["dying"] else r.ev == ("disc",)), "discovery is done for a port and it is destroyed exactly when requested", "handle" + n)
    for rid, n in (("handleInterfaces", "Interface"), ("handleConditionVariables", "Cond")):
        f = cx.fn(rid)
        evs = {"destroy": destroy_ev}
        if n == "Interface":
            def fwd(w, st, i):
                if i.op == "call" and re.search(r"^iox::vector::(push_back|emplace_back)$", i.callee or ""):
                    return w.elem(i.ops[1], st) or "other"
                return None
            evs["fwd"] = fwd
        w = Walk(f, {n: LIST[n]}, {"dying": dying}, evs, kills=("destroy",))
        w.check(cx, lambda r: r.lit.get("dying") is not None and (r.ev == ("destroy",) if r.lit["dying"] else r.n("destroy") == 0), "an element is destroyed exactly when requested and then not used any more", rid)
    f = cx.fn("doDiscovery")
    rows = table(f, {n: call(r"PortManager::%s$" % n) for n in ("handlePublisherPorts", "handleSubscriberPorts", "handleServerPorts", "handleClientPorts", "handleInterfaces", "handleConditionVariables", "publishServiceRegistry")})
    check_rows(cx, f, rows, lambda r: len(r.ev) == 7 and len(set(r.ev)) == 7 and r.ev[-1] == "publishServiceRegistry", "a discovery run handles all kinds of ports and publishes the registry at the end", "doDiscovery")


@P.rule("R5", "the port pool keeps each kind of port in its own list: removal erases the given port, creation fails iff the list is full", min=18)
def r5(cx):
    M = {"Publisher": "m_publisherPortMembers", "Subscriber": "m_subscriberPortMembers", "Client": "m_clientPortMembers", "Server": "m_serverPortMembers", "Interface": "m_interfacePortMembers", "Cond": "m_conditionVariableMembers"}
    for n, m in M.items():
        f = cx.fn("get" + n)
        for i in matching(f, is_ret):
            cx.ob(re.search(r"m_portPoolData\.%s$" % m, f.path(i.ops[0])) is not None, f, "the list of %s ports is handed out" % n, "get/" + n, i)
        f = cx.fn("rm" + n)
        er = call(r"FixedPositionContainer::erase$", (0 if True else 1, r"."))
        rows = table(f, {"erase": lambda i: er(i) and any(re.search(r"m_portPoolData\.%s$" % m, f.path(o)) for o in i.ops) and any(f.strip(o) == Val("arg", 1) for o in i.ops), "any": er})
        check_rows(cx, f, rows, lambda r: r.n("erase") == 1 and r.n("any") == 1, "the given port is erased from the list of its kind, once", "rm/" + n)
        f = cx.fn("add" + n)
        em = lambda i: i.op == "call" and re.search(r"FixedPositionContainer::emplace(<.*>)?$", i.callee or "") is not None
        mine_ = lambda i: em(i) and any(re.search(r"(m_portPoolData\.%s$|get%s\w*List\()" % (m, "ConditionVariable" if n == "Cond" else n), f.path(o)) for o in i.ops)

        def full(k, pol):
            if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "call" and (k[1].callee or "").endswith("::to_ptr") and isnull(k[2]):
                return pol
            if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and re.search(r"Iterator\w*::operator([!=]=)", k[1].callee or ""):
                return pol == ("==" in re.search(r"operator([!=]=)", k[1].callee).group(1))
            return None
        full.stable = True
        rows = exp_rows(f, {"emplace": mine_, "any": em}, {"full": full})
        check_rows(cx, f, rows, lambda r: r.n("emplace") == 1 and r.n("any") == 1, "one port is created in the list of its kind", "add/%s/once" % n)
        check_rows(cx, f, rows, lambda r: r.lit.get("full") is not None and r.lit["ret"] == ("err" if r.lit["full"] else "ok"), "creation fails iff the list is full", "add/%s/result" % n)
        check_rows(cx, f, [r for r in rows if r.lit["ret"] == "ok"], lambda r: isinstance(r.lit["val"], Ins) and re.search(r"to_ptr\(|\*?phi|IteratorBase", f.path(res(f, r.lit["val"], r.st))) is not None, "the port created is returned", "add/%s/value" % n)


@P.rule("R6", "releasing all chunks of a port covers its sender and its receiver", min=4)
def r6(cx):
    for n, parts in (("Publisher", ["Sender"]), ("Subscriber", ["Receiver"]), ("Client", ["Sender", "Receiver"]), ("Server", ["Sender", "Receiver"])):
        f = cx.fn("rel" + n)
        for p in parts:
            on_all_returns(cx, f, call(r"Chunk%s::releaseAll$" % p, (0, r"^arg0\.m_chunk%s" % p)), "the chunks of the port's %s are released" % p.lower(), "rel/%s/%s" % (n, p))


PL = r"^arg[01]\.m_processList$"
HB = r"^\*?\*?arg0\.m_heartbeatPool"
REMOVE = call(r"ProcessManager::removeProcessAndDeleteRespectiveSharedMemoryObjects$")


@P.rule("R7", "removing a process deletes its ports before forgetting it, erases its heartbeat and answers iff asked to", min=7)
def r7(cx):
    f = cx.fn("removeProcessAndDeleteRespectiveSharedMemoryObjects")

    def at_end(lst):
        def p(k, pol):
            if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and re.search(r"Iterator\w*::operator([!=]=)", k[1].callee or ""):
                for o in k[1].ops[:2]:
                    r = f.root_of(o)
                    if isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and re.search(r"::c?end$", w.callee or "") and re.search(lst, f.path(w.ops[1])) for w in f.writers(r)):
                        return pol == ("==" in re.search(r"operator([!=]=)", k[1].callee).group(1))
            return None
        p.stable = True
        return p
    name = lambda i: (lambda r: isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and (w.callee or "").endswith("Process::getName") and re.search(r"^(\w+::)*operator->\(arg1\)|\(arg1\)", f.path(w.ops[1])) for w in f.writers(r)))(f.root_of(i.ops[1]))
    ev = {"ports": lambda i, c=call("PortManager::deletePortsOfProcess$"): c(i) and name(i), "ack": lambda i, c=call("Process::sendViaIpcChannel$"): c(i),
          "heart": lambda i, c=call(r"FixedPositionContainer::erase$"): c(i) and re.search(HB, f.path(i.ops[1])) is not None,
          "forget": lambda i, c=call(r"list::erase$"): c(i) and re.search(PL, f.path(i.ops[1])) is not None}
    ask = lambda k, pol: (pol if k[2].v == 0 else not pol) if k[0] == "eq" and k[1] == Val("arg", 2) and v_const(0, 1)(k[2]) else None
    rows = bool_rows(f, ev, {"none": at_end(PL), "noheart": at_end(HB), "ask": ask})
    got = [r for r in rows if r.lit.get("none") is False]
    check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and r.lit["ret"] == (not r.lit["none"]), "the result says whether a process was removed", "rm/result")
    check_rows(cx, f, [r for r in rows if r.lit.get("none")] or rows, lambda r: not r.lit.get("none") or r.ev == (), "without a process nothing is done", "rm/none")
    check_rows(cx, f, got, lambda r: r.n("ports") == 1 and r.n("forget") == 1 and r.ev[-1] == "forget", "the ports are deleted and then the process is forgotten, once", "rm/ports")
    check_rows(cx, f, got, lambda r: r.lit.get("noheart") is not None and r.n("heart") == (0 if r.lit["noheart"] else 1), "the heartbeat of the process is erased", "rm/heart")
    check_rows(cx, f, got, lambda r: r.lit.get("ask") is not None and r.n("ack") == (1 if r.lit["ask"] else 0), "the process is answered iff asked to", "rm/ack")
    check_rows(cx, f, got, lambda r: r.before("ports", "ack"), "the ports are gone before the process is told so", "rm/order")
    for i in matching(f, call(r"FixedPositionContainer::iter_from_index$")):
        cx.ob(re.search(r"getHeartbeatPoolIndex\(.*\(arg1\)\)", f.path(i.ops[2])) is not None, f, "it is the heartbeat of this process", "rm/which", i)


def it_elem(w, st, v):
    k = w.key(v)
    return st[k] if k in st and isinstance(st[k][1], int) else None


@P.rule("R8", "a process is found by its name among all registered ones and removed; the result says whether it was found", min=5)
def r8(cx):
    f = cx.fn("searchForProcessAndRemoveIt")
    w = Walk(f, {"process": PL}, {"mine": mine(1, is_pname)}, {"remove": lambda w, st, i: (it_elem(w, st, i.ops[1]) or "other") if REMOVE(i) else None})
    w.check(cx, lambda r: r.lit.get("mine") is False and r.ev == (), "processes with another name are left alone", "search", left_ok=lambda r: r.lit.get("mine") is True and r.ev == ("remove", "left"))
    for r, st, tr in w.rows:
        v = f.ret_value(r, st)
        cx.ob(isinstance(v, Val) and v.k == "c" and bool(v.v) == (not st.get(("fin", "process"))), f, "the result says whether the process was found", "search/result", r, tr)
    f = cx.fn("findProcess")
    some = lambda i: i.op == "store" and re.search(r"^arg0\.m_hasValue$", f.addr(i)) and v_const(1)(f.strip(i.ops[0]))

    def found(w, st, i):
        if i.op == "store" and re.search(r"^arg0\.m_data", f.addr(i)) and isinstance(f.strip(i.ops[0]), Ins):
            return w.elem(i.ops[0], st) or "other"
        return None
    w = Walk(f, {"process": PL}, {"mine": mine(2, is_pname)}, {"found": found})
    w.check(cx, lambda r: r.lit.get("mine") is False and r.ev == (), "processes with another name are passed over", "find", left_ok=lambda r: r.lit.get("mine") is True and r.ev[-1] == "left")
    check_rows(cx, f, opt_rows(f, {}, {}), lambda r: r.lit["ret"] is not None, "a result is returned", "find/result")


@P.rule("R9", "a process whose heartbeat is overdue is removed, a heartbeat nobody owns is erased, everything else is left alone", min=5)
def r9(cx):
    f = cx.fn("monitorProcesses")

    def late(w, st, k, pol):
        if k[0] not in ("ult", "slt"):
            return None
        for a, b, t in ((k[2], k[1], pol), (k[1], k[2], not pol)):
            if isinstance(a, Ins) and a.op == "call" and (a.callee or "").endswith("elapsed_milliseconds_since_last_beat") and re.search(r"PROCESS_KEEP_ALIVE_TIMEOUT", f.path(b)):
                return w.elem(a.ops[0], st), t
        return None

    def cur(st):
        l = [k[1:] for k, v in st.items() if isinstance(k, tuple) and k[0] == "rec" and k[1] == "heartbeat" and dict(v[1]).get("late")]
        return l[-1] if l else None
    owner_of = lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("::getHeartbeatPoolIndex")
    ix = lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("::to_index")

    def owner(w, st, k, pol):
        if k[0] != "eq":
            return None
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            if owner_of(a) and ix(b):
                h = it_elem(w, st, b.ops[0])
                return (w.elem(a.ops[0], st), pol) if h is not None and h == cur(st) else None
        return None

    def removed(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and REMOVE(k[1]):
            return cur(st), pol
        return None
    w = Walk(f, {"heartbeat": HB, "process": PL}, {"late": late, "owner": owner, "removed": removed},
             {"remove": lambda w, st, i: (it_elem(w, st, i.ops[1]) or "other") if REMOVE(i) else None, "rm": lambda w, st, i: (cur(st) or "other") if REMOVE(i) else None,
              "erase": lambda w, st, i: (it_elem(w, st, i.ops[2]) or "other") if i.op == "call" and (i.callee or "").endswith("FixedPositionContainer::erase") else None})
    w.check(cx, lambda r: r.lit.get("late") is not None and r.ev == (() if not r.lit["late"] else ("rm",) if r.lit.get("removed") else ("rm", "erase") if r.lit.get("removed") is False else ("erase",)),
            "an overdue heartbeat leads to the removal of its process, or is erased if it has none", "monitor", ["heartbeat"])
    w.check(cx, lambda r: r.lit.get("owner") is False and r.ev == (), "only the process of the overdue heartbeat is removed", "monitor", ["process"], left_ok=lambda r: r.lit.get("owner") is True and r.ev == ("remove", "left"), optional=True)


@P.rule("R10", "registering again first removes the former process; unregistering, shutdown preparation and RouDi's shutdown take the effects they promise", min=9)
def r10(cx):
    S, A = call("ProcessManager::searchForProcessAndRemoveIt$"), call("ProcessManager::addProcess$")
    f = cx.fn("registerProcess")
    known = opt_has(call("ProcessManager::findProcess$"))
    known.stable = True
    rows = bool_rows(f, {"rm": lambda i: S(i) and f.strip(i.ops[1]) == Val("arg", 1) and v_const(1)(f.strip(i.ops[2])), "add": lambda i: A(i) and f.strip(i.ops[1]) == Val("arg", 1), "anyrm": S}, {"known": known, "removed": truth_of(S), "added": truth_of(A)})
    check_rows(cx, f, rows, lambda r: r.lit.get("known") is not None and (r.ev == ("add",) if not r.lit["known"] else [e for e in r.ev if e != "anyrm"] == (["rm", "add"] if r.lit.get("removed") else ["rm"])), "a known process is removed without an answer before it is added again, an unknown one is added", "register/table")
    check_rows(cx, f, rows, lambda r: (r.lit["ret"] is False) == (r.n("add") == 0) or (r.n("add") and r.lit["ret"] in (True, False) and r.lit.get("added") == r.lit["ret"]), "the result is that of adding the process", "register/result")
    f = cx.fn("unregisterProcess")
    rows = bool_rows(f, {"rm": lambda i: S(i) and f.strip(i.ops[1]) == Val("arg", 1) and v_const(0)(f.strip(i.ops[2])), "any": S}, {"r": truth_of(S)})
    check_rows(cx, f, rows, lambda r: r.n("rm") == 1 and r.n("any") == 1 and returns_iff(r, "r"), "the process is removed and answered, and the result says so", "unregister")
    f = cx.fn("handleProcessShutdownPreparationRequest")
    known = opt_has(call("ProcessManager::findProcess$"))
    known.stable = True
    rows = table(f, {"unblock": lambda i, c=call("PortManager::unblockProcessShutdown$"): c(i) and f.strip(i.ops[1]) == Val("arg", 1), "ack": call("Process::sendViaIpcChannel$")}, {"known": known})
    check_rows(cx, f, rows, lambda r: r.lit.get("known") is not None and r.ev == (("unblock", "ack") if r.lit["known"] else ()), "the senders are unblocked before a known process is answered", "prepare")
    for rid, sig in (("requestShutdownOfAllProcesses", 0), ("killAllProcesses", 1)):
        f = cx.fn(rid)
        w = Walk(f, {"process": PL}, {}, {"kill": lambda w, st, i, c=call("ProcessManager::requestShutdownOfProcess$"): (w.elem(i.ops[1], st) or "other") if c(i) and v_const(sig)(f.strip(i.ops[2])) else None})
        w.check(cx, lambda r: r.ev == ("kill",), "every process is told once to end", rid)
        if sig == 0:
            on_all_returns(cx, f, call("PortManager::unblockRouDiShutdown$"), "blocked senders are released", rid + "/unblock")
    f = cx.fn("run")
    for n, p in (("monitor", anyof(call("::monitorProcesses$"), call("FixedPositionContainer::begin$", (1, HB)))), ("discover", anyof(call("::(doDiscovery|discoveryUpdate)$"), lambda i: i.op == "call" and not i.callee and len(i.ops) >= 1 and f.strip(i.ops[0]) == Val("arg", 0)))):
        on_all_returns(cx, f, p, "a cycle monitors and discovers", "run/" + n)
    on_all_returns(cx, cx.fn("discoveryUpdate"), call("PortManager::doDiscovery$"), "a discovery update runs the discovery", "run/update")
