from engine.core import Prop
from rules.lib import *
from rules.lists import Walk

P = Prop("P17")
P.explain = ""
R = "iceoryx_posh/source/roudi/"
INTERNAL = r"^iox::roudi::PortManager::(doDiscoveryFor\w+|destroy\w+Port|sendToAllMatching\w+|isCompatible\w+|(add|remove)(Publisher|Server)(To|From)ServiceRegistry|publishServiceRegistry|handle\w+|isInternal|doesViolateCommunicationPolicy|acquirePublisherPortDataWithoutDiscovery)$"
OPQ = [r"^iox::popo::(?!.*lambda)", r"^iox::roudi::(PortPool|ServiceRegistry|PortIntrospection\w*|ProcessIntrospection\w*)::", r"^iox::capro::", INTERNAL]
P.group("m", [R + "port_manager.cpp"], opaque=OPQ)
for n in ("isCompatiblePubSub", "isCompatibleClientServer", "sendToAllMatchingPublisherPorts", "sendToAllMatchingSubscriberPorts", "sendToAllMatchingClientPorts", "sendToAllMatchingServerPorts", "sendToAllMatchingInterfacePorts",
          "doDiscoveryForPublisherPort", "doDiscoveryForSubscriberPort", "doDiscoveryForClientPort", "doDiscoveryForServerPort", "publishServiceRegistry", "handleInterfaces", "acquireServerPortData", "acquireClientPortData", "acquireSubscriberPortData", "acquirePublisherPortData", "acquirePublisherPortDataWithoutDiscovery", "isInternal",
          "addPublisherToServiceRegistry", "removePublisherFromServiceRegistry", "addServerToServiceRegistry", "removeServerFromServiceRegistry"):
    P.root("m", n, "iox::roudi::PortManager::" + n)
P.group("reg", [R + "service_registry.cpp"], opaque=[r"^iox::capro::(?!.*Entry)", r"^iox::roudi::ServiceRegistry::findIndex$", r"^iox::function_ref::"])
for n in ("addPublisher", "addServer", "removePublisher", "removeServer", "purge", "find", "findIndex", "forEach", "hasDataChangedSinceLastCall"):
    P.root("reg", n, "iox::roudi::ServiceRegistry::" + n)
P.group("capro", ["iceoryx_posh/source/capro/service_description.cpp"], opaque=[r"^iox::string::"])
P.root("capro", "eq", "iox::capro::ServiceDescription::operator==")
P.root("capro", "ne", "iox::capro::ServiceDescription::operator!=")
P.root("capro", "iface", "iox::capro::ServiceDescription::getSourceInterface")
P.explain = """
Matching is decided by complete truth tables of the compatibility predicates over service identity and the policies; every list walk that
distributes a message has a per-element table (which ports are told, what happens with their answers, which are skipped); discovery,
registry and creation functions have decision tables of their effects."""
OFFER, STOP, SUB, UNSUB, CONN, DISC, ACK, NACK = 2, 3, 4, 5, 6, 7, 8, 9
LIST = {n: r"get%sPortDataList\(" % n for n in ("Publisher", "Subscriber", "Client", "Server", "Interface")}
SD = r"(getCaProServiceDescription\(%s\)|%s.*\.m_serviceDescription)$"


def isarg(f, v, n):
    """value is (or refers into the description of) argument n"""
    return f.strip(v) == Val("arg", n) or re.search(r"(^|\()arg%d\)?(\.m_serviceDescription)?$" % n, f.path(v)) is not None


def same_service(a, b):
    def p(k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call":
            m = re.search(r"ServiceDescription::operator([!=]=)$", k[1].callee or "")
            if m:
                f = k[1].fn
                x, y = k[1].ops[:2]
                for u, v in ((x, y), (y, x)):
                    if isarg(f, u, a) and isarg(f, v, b):
                        return pol == (m.group(1) == "==")
        return None
    p.stable = True
    return p


def policy(rx, yes):
    """a two-valued policy (field or accessor matching rx) has the value `yes`"""
    def p(k, pol):
        if k[0] == "eq" and v_const(0, 1)(k[2]) and isinstance(k[1], Ins) and re.search(rx, k[1].fn.path(k[1]).lstrip("*")):
            return pol if k[2].v == yes else not pol
        if k[0] == "b" and isinstance(k[1], Ins) and re.search(rx, k[1].fn.path(k[1]).lstrip("*")):
            return pol == bool(yes)
        return None
    p.stable = True
    return p


def positive(rx):
    def p(k, pol):
        ok = lambda v: isinstance(v, Ins) and re.search(rx, v.fn.path(v).lstrip("*")) is not None
        if k[0] == "eq" and ok(k[1]) and v_const(0)(k[2]):
            return not pol
        if k[0] in ("ult", "slt") and ok(k[2]) and v_const(0)(k[1]):
            return pol
        if k[0] in ("ult", "slt") and ok(k[1]) and v_const(1)(k[2]):
            return not pol
        return None
    p.stable = True
    return p


def truth(spec, names):
    """row check: the result is spec for every completion of the conditions the path did not look at"""
    def c(r):
        if not isinstance(r.lit.get("ret"), bool):
            return False
        free = [n for n in names if r.lit.get(n) is None]
        for a in product({n: (True, False) for n in free}):
            d = dict(a, **{n: r.lit[n] for n in names if n not in free})
            if bool(spec(**d)) != r.lit["ret"]:
                return False
        return True
    return c


@P.rule("R1", "ports match iff they have the same service and their policies allow each other", min=4)
def r1(cx):
    f = cx.fn("isCompatiblePubSub")
    lits = {"same": same_service(1, 2), "discard": policy(r"getOptions\(arg1\)\.subscriberTooSlowPolicy$", 1), "block": policy(r"getOptions\(arg2\)\.queueFullPolicy$", 0),
            "needs": policy(r"getOptions\(arg2\)\.requiresPublisherHistorySupport$", 1), "hist": positive(r"getOptions\(arg1\)\.historyCapacity$")}
    rows = split_bool(f, bool_rows(f, {}, lits), lits)
    check_rows(cx, f, rows, truth(lambda same, discard, block, needs, hist: same and not (discard and block) and (not needs or hist), list(lits)), "publisher and subscriber match iff service, blocking policies and history request agree", "pubsub")
    req_some(cx, f, [r for r in rows if r.lit["ret"] is True], "some match", "pubsub/some")
    f = cx.fn("isCompatibleClientServer")
    lits = {"same": same_service(1, 2), "cdiscard": policy(r"getServerTooSlowPolicy\(arg2\)$", 1), "sblock": policy(r"getRequestQueueFullPolicy\(arg1\)$", 0),
            "sdiscard": policy(r"getClientTooSlowPolicy\(arg1\)$", 1), "cblock": policy(r"getResponseQueueFullPolicy\(arg2\)$", 0)}
    rows = split_bool(f, bool_rows(f, {}, lits), lits)
    check_rows(cx, f, rows, truth(lambda same, cdiscard, sblock, sdiscard, cblock: same and not (cdiscard and sblock) and not (sdiscard and cblock), list(lits)), "client and server match iff service and both directions' blocking policies agree", "clientserver")
    req_some(cx, f, [r for r in rows if r.lit["ret"] is True], "some match", "clientserver/some")


def part(name):
    def p(k, pol):
        c = k[1]
        if not (isinstance(c, Ins) and c.op == "call" and re.search(r"^iox::string::(compare|operator[!=]=)|^iox::operator[!=]=", c.callee or "")):
            return None
        f = c.fn
        a, b = (f.path(o) for o in c.ops[:2])
        if {a, b} != {"arg0." + name, "arg1." + name}:
            return None
        if k[0] == "eq" and v_const(0)(k[2]):
            return pol
        if k[0] == "b":
            return pol == ("operator==" in c.callee)
        return None
    p.stable = True
    return p


@P.rule("R2", "services are the same iff service, instance and event are", min=3)
def r2(cx):
    lits = {n: part("m_%sString" % n) for n in ("service", "instance", "event")}
    for rid, want in (("eq", True), ("ne", False)):
        f = cx.fn(rid)
        rows = split_bool(f, bool_rows(f, {}, lits), lits)
        check_rows(cx, f, rows, truth(lambda service, instance, event: (service and instance and event) == want, list(lits)), "equality compares service, instance and event", rid)
    f = cx.fn("iface")
    for i in matching(f, is_ret):
        cx.ob(f.path(i.ops[0]) == "*arg0.m_interfaceSource", f, "the interface is the stored one", "iface", i)


# ------------------------------------------------------------------ distribution
DISP = re.compile(r"::dispatchCaProMessage(AndGetPossibleResponse)?$")


def is_disp(i):
    return i.op == "call" and (bool(DISP.search(i.callee)) if i.callee else len(i.ops) == 3 and isinstance(i.fn.root_of(i.ops[0]), Ins) and i.fn.root_of(i.ops[0]).op == "alloca")


def origin(f, v):
    """'msg' (the message distributed) or the dispatch call whose answer the value is"""
    if f.strip(v) == Val("arg", 1):
        return "msg"
    todo, seen = [f.root_of(v)], set()
    while todo:
        r = todo.pop()
        if not (isinstance(r, Ins) and r.op == "alloca") or r.id in seen:
            continue
        seen.add(r.id)
        for w in f.writers(r):
            if w.op == "call" and w.ops and f.root_of(w.ops[0]) is r:
                if is_disp(w) and len(w.ops) == 3:
                    return w
                if len(w.ops) > 1 and isinstance(f.root_of(w.ops[1]), Ins):
                    todo.append(f.root_of(w.ops[1]))
    return None


def port(i):
    return i.ops[1] if len(i.ops) == 3 else i.ops[0]


def message(i):
    return i.ops[2] if len(i.ops) == 3 else i.ops[1]


def depth(f, i):
    """0: the message itself is dispatched, n: an answer to an answer"""
    n = 0
    while n < 5:
        o = origin(f, message(i))
        if o == "msg":
            return n, n
        if o is None:
            return None, None
        i, n = o, n + 1
    return None, None


def disp_events(f, src):
    def ev(d, to_elem):
        def p(w, st, i):
            if not is_disp(i):
                return None
            n, _ = depth(f, i)
            mine = f.strip(port(i)) == Val("arg", src) if src else False
            if n is None:
                return "other" if d == 0 else None
            if n != d:
                return None
            if to_elem:
                return "other" if mine else (w.elem(port(i), st) or "other")
            if not mine:
                return "other"
            o = origin(f, message(i))
            return w.elem(port(o), st) or "other"
        return p
    return ev


def answered(d):
    """the dispatch at depth d was answered"""
    def p(w, st, k, pol):
        f = w.f
        for i in f.ins():
            if is_disp(i) and len(i.ops) == 3 and depth(f, i)[0] == d:
                t = opt_has(lambda c, i=i: c is i)(k, pol)
                if t is not None:
                    x = i
                    while origin(f, message(x)) != "msg":
                        x = origin(f, message(x))
                    return w.elem(port(x), st), t
        return None
    return p


def iface_of(f, v):
    v = f.strip(v)
    return v.ops[0] if isinstance(v, Ins) and v.op == "call" and (v.callee or "").endswith("::getSourceInterface") else None


def from_message(f, v):
    return v is not None and re.search(r"^\*?arg1\.m_serviceDescription$", f.path(v)) is not None


def internal(w, st, k, pol):
    if k[0] == "eq" and v_const(0)(k[2]):
        v = iface_of(w.f, k[1])
        if v is not None and not from_message(w.f, v):
            return w.elem(v, st), pol
    return None


def same_iface(w, st, k, pol):
    if k[0] == "eq":
        a, b = iface_of(w.f, k[1]), iface_of(w.f, k[2])
        for x, y in ((a, b), (b, a)):
            if from_message(w.f, x) and y is not None:
                return w.elem(y, st), pol
    return None


def compat(rx, elem, src):
    c = call(rx)

    def p(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and c(k[1]) and w.f.strip(k[1].ops[src]) == Val("arg", 2):
            return w.elem(k[1].ops[elem], st), pol
        return None
    return p


def mtype(root, val):
    def p(k, pol):
        if k[0] == "eq" and v_const(val)(k[2]) and isinstance(k[1], Ins) and k[1].op == "load" and k[1].fn.path(k[1]) == "*%s.m_type" % root:
            return pol
        return None
    p.stable = True
    return p


def connected(w, st, k, pol):
    if k[0] == "eq" and v_const(2)(k[2]) and isinstance(k[1], Ins):
        v = k[1]
        if v.op == "call" and re.search(r"::getConnectionState$", v.callee or ""):
            return w.elem(v.ops[0], st), pol
        if v.op == "load" and re.search(r"m_connectionState(\.m_value)?$", w.f.addr(v)):
            return w.elem(v.ops[0], st), pol
    return None


def reached(r):
    """does the message go to this publisher / subscriber? None: not looked at"""
    if r.lit.get("internal") is True or r.lit.get("same") is False:
        return True
    if r.lit.get("internal") is False and r.lit.get("same") is True:
        return False
    return None


@P.rule("R3", "a message goes to every matching port, and its answers go back and forth until the connection is settled", min=14)
def r3(cx):
    for rid, L, fn, e, s, n in (("sendToAllMatchingPublisherPorts", "Publisher", "isCompatiblePubSub", 1, 2, 2), ("sendToAllMatchingSubscriberPorts", "Subscriber", "isCompatiblePubSub", 2, 1, 3),
                                ("sendToAllMatchingClientPorts", "Client", "isCompatibleClientServer", 2, 1, 3), ("sendToAllMatchingServerPorts", "Server", "isCompatibleClientServer", 1, 2, 2)):
        f = cx.fn(rid)
        pubsub = L in ("Publisher", "Subscriber")
        E = disp_events(f, 2)
        evs = {"tell": E(0, True), "back": E(1, False), "ack": E(2, True)}
        lits = {"compat": compat("PortManager::%s$" % fn, e, s), "r1": answered(0), "r2": answered(1), "connected": connected}
        if pubsub:
            lits.update(internal=internal, same=same_iface)
        w = Walk(f, {L: LIST[L]}, lits, evs, glits={"stop": mtype("arg1", STOP)}, gevents={"tell": lambda i: is_disp(i) and depth(f, i)[0] == 0})

        def spec(r):
            go = reached(r) if pubsub else True
            if go is False or r.lit.get("compat") is False:
                return r.ev == ()
            if L == "Client" and r.lit.get("compat") and r.lit.get("stop") is True and r.lit.get("connected") is False:
                return r.ev == ()
            if go is not True or r.lit.get("compat") is not True or (L == "Client" and r.lit.get("stop") is not False and r.lit.get("connected") is not True):
                return False
            if r.lit.get("r1") is None:
                return False
            if not r.lit["r1"]:
                return r.ev == ("tell",)
            if n == 2:
                return r.ev == ("tell", "back")
            if r.lit.get("r2") is None:
                return False
            return r.ev == (("tell", "back", "ack") if r.lit["r2"] else ("tell", "back"))
        w.check(cx, spec, "exactly the matching ports are told and answers are forwarded", rid)
        if n == 2:
            for r, st, tr in w.rows:
                v = f.ret_value(r, st)
                cx.ob(isinstance(v, Val) and v.k == "c" and bool(v.v) == ("tell" in st.get("ev", ())), f, "the result says whether a matching port exists", rid + "/result", r, tr)
    f = cx.fn("sendToAllMatchingInterfacePorts")
    E = disp_events(f, None)
    w = Walk(f, {"Interface": LIST["Interface"]}, {"same": same_iface}, {"tell": E(0, True)})
    w.check(cx, lambda r: r.lit.get("same") is not None and r.ev == (() if r.lit["same"] else ("tell",)), "interfaces other than the origin are told", "interfaces")


# ------------------------------------------------------------------ discovery
def frommsg(f, v, MSG):
    todo, seen = [f.root_of(v)], set()
    while todo:
        r = todo.pop()
        if isinstance(r, Ins) and r.op == "alloca" and r.id not in seen:
            seen.add(r.id)
            for w in f.writers(r):
                if w.op == "call" and MSG(w):
                    return True
                if w.op == "call" and len(w.ops) > 1 and f.root_of(w.ops[0]) is r:
                    todo.append(f.root_of(w.ops[1]))
    return False


@P.rule("R4", "discovery keeps the registry in step with offers, tells all peers and interfaces and rejects what found no peer", min=11)
def r4(cx):
    def msgcall(f):
        # direct or virtual call on the port which yields an optional
        return lambda i: i.op == "call" and len(i.ops) == 2 and f.strip(i.ops[1]) == Val("arg", 1) and isinstance(f.root_of(i.ops[0]), Ins) and (re.search(r"::tryGetCaProMessage$", i.callee or "") is not None or not i.callee)

    def typ(f, MSG, val):
        def p(k, pol):
            if k[0] == "eq" and v_const(val)(k[2]) and isinstance(k[1], Ins) and k[1].op == "load" and frommsg(f, k[1].ops[0], MSG):
                return pol
            return None
        p.stable = True
        return p
    for rid, send, reg in (("Publisher", "Subscriber", "Publisher"), ("Server", "Client", "Server")):
        f = cx.fn("doDiscoveryFor%sPort" % rid)
        MSG = msgcall(f)
        M = lambda i, a: frommsg(f, i.ops[a], MSG)
        has = opt_has(MSG)
        has.stable = True
        rows = table(f, {"msg": MSG, "add": lambda i, c=call("PortManager::add%sToServiceRegistry$" % reg): c(i) and M(i, 1), "rem": lambda i, c=call("PortManager::remove%sFromServiceRegistry$" % reg): c(i) and M(i, 1),
                         "send": lambda i, c=call("PortManager::sendToAllMatching%sPorts$" % send): c(i) and M(i, 1) and f.strip(i.ops[2]) == Val("arg", 1),
                         "iface": lambda i, c=call("PortManager::sendToAllMatchingInterfacePorts$"): c(i) and M(i, 1)},
                     {"has": has, "offer": typ(f, MSG, OFFER), "stop": typ(f, MSG, STOP)})
        check_rows(cx, f, rows, lambda r: r.n("msg") == 1 and r.lit.get("has") is not None, "the port is asked once what changed", rid + "/asked")

        def want(r):
            l = r.lit
            if not l.get("has"):
                return r.ev == ("msg",)
            if l.get("offer"):
                kind = "add"
            elif l.get("stop"):
                kind = "rem"
            elif l.get("offer") is False and l.get("stop") is False:
                return r.ev == ("msg",)
            else:
                return False
            return sorted(r.ev) == sorted(("msg", kind, "send", "iface"))
        check_rows(cx, f, rows, want, "an offer is registered, its end is unregistered, and both are distributed to all peers and interfaces", rid + "/table")
        req_some(cx, f, [r for r in rows if r.n("add")], "offers are registered", rid + "/some")
    for rid, send, go in (("Subscriber", "Publisher", (SUB, UNSUB)), ("Client", "Server", (CONN, DISC))):
        f = cx.fn("doDiscoveryFor%sPort" % rid)
        MSG = msgcall(f)
        M = lambda i, a: frommsg(f, i.ops[a], MSG)
        has = opt_has(MSG)
        has.stable = True
        SEND = call("PortManager::sendToAllMatching%sPorts$" % send)

        def nack(i):
            if not (i.op == "call" and len(i.ops) == 3 and f.strip(i.ops[1]) == Val("arg", 1) and (is_disp(i) or not i.callee)):
                return False
            r = f.root_of(i.ops[2])
            return isinstance(r, Ins) and any(w.op == "call" and re.search(r"CaproMessage::CaproMessage$", w.callee or "") and len(w.ops) > 2 and v_const(NACK)(f.strip(w.ops[1])) and isarg(f, w.ops[2], 1) for w in f.writers(r))
        rows = table(f, {"msg": MSG, "send": lambda i: SEND(i) and M(i, 1) and f.strip(i.ops[2]) == Val("arg", 1), "nack": nack},
                     {"has": has, "a": typ(f, MSG, go[0]), "b": typ(f, MSG, go[1]), "found": truth_of(SEND)})

        def want(r):
            l = r.lit
            if not l.get("has") or (l.get("a") is False and l.get("b") is False):
                return r.ev == ("msg",)
            if not (l.get("a") or l.get("b")):
                return False
            return l.get("found") is not None and r.ev == (("msg", "send") if l["found"] else ("msg", "send", "nack"))
        check_rows(cx, f, rows, lambda r: r.n("msg") == 1 and r.lit.get("has") is not None, "the port is asked once what changed", rid + "/asked")
        check_rows(cx, f, rows, want, "a request is sent to all peers and rejected if there is none", rid + "/table")
        req_some(cx, f, [r for r in rows if r.n("nack")], "requests without peer are rejected", rid + "/some")


@P.rule("R5", "new interfaces learn all existing offers of publishers and servers of other interfaces", min=4)
def r5(cx):
    f = cx.fn("handleInterfaces")
    for n in ("Publisher", "Server"):
        FWD = r"(^|\()\$vector#\d+$"
        def offered(w, st, k, pol):
            v = k[1]
            if k[0] in ("b",) and isinstance(v, Ins):
                if v.op == "call" and (v.callee or "").endswith("::isOffered"):
                    return w.elem(v.ops[0], st), pol
                if v.op == "load" and re.search(r"m_offered(\.m_value)?$", w.f.addr(v)):
                    return w.elem(v.ops[0], st), pol
            return None

        def cur(st):
            g = st.get(("last", n))
            return (n, g) if ("rec", n, g) in st else None

        def same(w, st, k, pol):
            if k[0] != "eq":
                return None
            a, b = iface_of(f, k[1]), iface_of(f, k[2])
            if a is None or b is None:
                return None
            ea, eb = w.elem(a, st), w.elem(b, st)
            for x, y in ((ea, eb), (eb, ea)):
                if x is not None and x[0] == n and y is not None and y[0] == "fwd":
                    return y, pol
            return None

        def tell(w, st, i):
            if not is_disp(i):
                return None
            e = w.elem(port(i), st)
            return e if e is not None and e[0] == "fwd" and cur(st) is not None else None
        w = Walk(f, {n: LIST[n], "fwd": FWD}, {"offered": offered, "same": same}, {"tell": tell}, glits={})
        recs = [r for r in w.recs if r.lst == "fwd"]
        good = [r for r in recs if "same" in r.lit]
        cx.ob(bool(good) and all(r.ev == (() if r.lit["same"] else ("tell",)) for r in good), f, "an existing offer is told to a new interface iff it is another interface (%s)" % [r for r in good if r.ev != (() if r.lit["same"] else ("tell",))][:1], "initial/%s/each" % n)
        cx.ob(all(r.lit.get("offered") is not None for r in w.recs if r.lst == n) and any(r.lst == n for r in w.recs), f, "it is looked at whether the port is offered", "initial/%s/offered" % n)
        offer_message(cx, f, n)

    # the interfaces told are the new ones
    def fwd(w, st, i):
        if i.op == "call" and re.search(r"^iox::vector::(push_back|emplace_back)$", i.callee or ""):
            return w.elem(i.ops[1], st) or "other"
        return None

    def done(w, st, i):
        return w.elem(i.ops[1], st) or "other" if i.op == "store" and re.search(r"\.m_doInitialOfferForward$", f.addr(i)) and v_const(0)(f.strip(i.ops[0])) else None

    def flag(rx):
        def p(w, st, k, pol):
            v = k[1]
            return (w.elem(v.ops[0], st), pol) if k[0] == "b" and isinstance(v, Ins) and v.op == "load" and re.search(rx, f.addr(v)) else None
        return p
    w = Walk(f, {"Interface": LIST["Interface"]}, {"new": flag(r"\.m_doInitialOfferForward$"), "dying": flag(r"\.m_toBeDestroyed")}, {"fwd": fwd, "done": done})
    w.check(cx, lambda r: r.n("fwd") == r.n("done") == (1 if r.lit.get("new") is True else 0) and (r.lit.get("new") is not None or r.lit.get("dying") is True), "every interface that is new is told once", "initial/new")


def offer_message(cx, f, n):
    """at every dispatch in the walk over the ports of kind n the message is the offer of the current port"""
    T, K = cx.enum("iox::capro::CaproMessageType"), cx.enum("iox::capro::CaproServiceType")
    MSG = r"^\$CaproMessage#\d+"
    bad = []
    seen = [0]

    def of(v):
        """the port whose description a value is"""
        v = f.strip(v)
        if isinstance(v, Ins) and v.op == "call" and (v.callee or "").endswith("::getCaProServiceDescription"):
            r = f.root_of(v.ops[0])
            mk = [w for w in f.writers(r) if w.op == "call" and len(w.ops) > 1 and f.root_of(w.ops[0]) is r] if isinstance(r, Ins) and r.op == "alloca" else []
            return v.id, (f.path(mk[0].ops[1]) if mk else f.path(v.ops[0]))
        return None

    def step(st, i):
        if i.op == "store" and re.search(MSG + r"(\+\d+|\.\w+)?$", f.path(i.ops[1])):
            p, v = re.sub(MSG, "", f.path(i.ops[1])), f.strip(i.ops[0])
            st[("f", {"": 0, "+1": 1}.get(p, p))] = v.v if isinstance(v, Val) else None
        elif i.op == "call" and i.callee and i.ops and re.search(MSG, f.path(i.ops[0])):
            if i.callee.endswith("CaproMessage::CaproMessage"):
                if len(i.ops) > 2:
                    a = [f.strip(o) for o in i.ops]
                    st[("f", 0)], st["desc"] = (a[1].v if isinstance(a[1], Val) else None), of(a[2])
                    st[("f", 1)] = a[3].v if len(a) > 3 and isinstance(a[3], Val) else 0
            elif i.callee.endswith("ServiceDescription::operator="):
                st["desc"] = of(i.ops[1])
        elif i.op == "call" and re.search(r"IteratorBase::operator(\+\+|\*|->)$", i.callee or ""):
            if i.callee.endswith("++") or i.callee.endswith("*"):
                st["desc"] = None
        elif i.op == "call" and (i.callee or "").endswith("::get%sPortDataList" % n):
            st["in"] = True
        elif i.op == "call" and re.search(r"::get(Publisher|Server)PortDataList$", i.callee or ""):
            st["in"] = False
        if is_disp(i) and st.get("in"):
            seen[0] += 1
            d = st.get("desc")
            if st.get(("f", 0)) != T["OFFER"] or st.get(("f", 1)) != K[n.upper()] or d is None:
                bad.append(i)
        return None
    for _ in f.simulate({}, step, None, phis=()):
        pass
    cx.ob(seen[0] > 0, f, "existing offers are told", "initial/%s/some" % n)
    cx.ob(not bad, f, "the message is the offer of the %s looked at" % n.lower(), "initial/%s/message" % n, bad[0] if bad else None)
    OFF = lambda k, pol: pol if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and re.search(r"%sPortUser::isOffered$" % n, k[1].callee or "") else None
    look = lambda i: i.op == "call" and re.search(r"^iox::vector::(begin|size|operator\[\]|at)$", i.callee or "") is not None and re.search(r"^\$vector", f.path(i.ops[0])) is not None
    w = f.search_edge(holds(OFF, True), lambda i: is_ret(i) or i.op == "call" and (i.callee or "").endswith("IteratorBase::operator++"), look)
    cx.ob(w is None, f, "every offered %s is told" % n.lower(), "initial/%s/all" % n, None, w)
    w = f.search_edge(holds(OFF, False), is_disp, lambda i: i.op == "call" and (i.callee or "").endswith("IteratorBase::operator++"))
    cx.ob(w is None, f, "a %s that is not offered is not told" % n.lower(), "initial/%s/not" % n, None, w)


# ------------------------------------------------------------------ creation
@P.rule("R6", "ports are created under the rules: one server per service, no foreign use of internal services, discovery right after creation", min=14)
def r6(cx):
    f = cx.fn("acquireServerPortData")

    def same(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call":
            m = re.search(r"ServiceDescription::operator([!=]=)$", k[1].callee or "")
            if m:
                x, y = k[1].ops[:2]
                for u, v in ((x, y), (y, x)):
                    if f.strip(u) == Val("arg", 2) and w.elem(v, st) is not None:
                        return w.elem(v, st), pol == (m.group(1) == "==")
        return None

    def dying(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins):
            v = k[1]
            if v.op == "load" and re.search(r"m_toBeDestroyed(\.m_value)?$", f.addr(v)) or v.op == "call" and (v.callee or "").endswith("::toBeDestroyed"):
                return w.elem(v.ops[0], st), pol
        return None
    ADD = call(r"PortPool::addServerPort$")
    DST = call(r"PortManager::destroyServerPort$")
    w = Walk(f, {"Server": LIST["Server"]}, {"same": same, "dying": dying}, {"destroy": lambda w, st, i: (w.elem(i.ops[1], st) or "other") if DST(i) else None}, kills=("destroy",), gevents={"add": ADD, "disc": call("PortManager::doDiscoveryForServerPort$")})
    w.check(cx, lambda r: r.ev == (() if r.lit.get("same") is False else ("destroy",)) and (r.lit.get("same") is False or r.lit.get("same") and r.lit.get("dying")), "servers of other services are left alone, one of this service that is going away is destroyed", "server",
            left_ok=lambda r: r.lit.get("same") is True and r.lit.get("dying") is False and r.ev == ("left",))
    for r, st, tr in w.rows:
        cx.ob(("add" in st.get("ev", ())) == bool(st.get(("fin", "Server"))), f, "a server is created iff there is no other one for the service", "server/unique", r, tr)
    for rid, add, src in (("acquireServerPortData", "addServerPort", "Server"), ("acquireClientPortData", "addClientPort", "Client"), ("acquireSubscriberPortData", "addSubscriberPort", "Subscriber"), ("acquirePublisherPortData", "acquirePublisherPortDataWithoutDiscovery", "Publisher")):
        f = cx.fn(rid)
        A = lambda i, c=call(r"::%s$" % add): c(i) and f.strip(i.ops[2]) == Val("arg", 2)
        okl = exp_ok(A, stable=True)
        okd = lambda k, pol, okl=okl, f=f, A=A: okl(k, pol) if okl(k, pol) is not None else tag0(f, A, k, pol)
        okd.stable = True
        null = lambda k, pol: (not pol) if k[0] == "eq" and isnull(k[2]) and isinstance(k[1], Ins) and k[1].op == "load" and k[1].ty == "ptr" and k[2].k != "c" else None
        rows = table(f, {"add": A, "disc": call(r"PortManager::doDiscoveryFor%sPort$" % src)}, {"ok": okd, "there": null})
        check_rows(cx, f, rows, lambda r: r.n("disc") == (1 if r.n("add") and r.lit.get("ok") is True and r.lit.get("there") is not False else 0), "discovery is done once right after the port was created", src + "/discovery")
        check_rows(cx, f, rows, lambda r: not r.n("add") or r.lit.get("ok") is not None, "the result of the creation is looked at", src + "/looked")
        req_some(cx, f, [r for r in rows if r.n("disc")], "discovery is done for a created port", src + "/some")
    f = cx.fn("acquirePublisherPortDataWithoutDiscovery")
    A = lambda i, c=call(r"PortPool::addPublisherPort$"): c(i) and f.strip(i.ops[2]) == Val("arg", 2)
    V = call(r"PortManager::doesViolateCommunicationPolicy")
    viol = opt_has(V)
    viol.stable = True

    def roudi(k, pol):
        c = k[1]
        if isinstance(c, Ins) and c.op == "call" and re.search(r"^iox::string::(compare|operator==)", c.callee or "") and any(f.strip(o) == Val("arg", 4) for o in c.ops[:2]) and any(isinstance(f.root_of(o), Ins) and any("ROUDI_NAME" in str(x.ops) or any("ROUDI_NAME" in f.path(q) for q in x.ops) for x in f.writers(f.root_of(o))) for o in c.ops[:2] if f.strip(o) != Val("arg", 4)):
            return pol if (k[0] == "eq" or "operator==" in c.callee) else None
        return None
    roudi.stable = True
    inn = truth_of(lambda i, c=call(r"PortManager::isInternal$"): c(i) and f.strip(i.ops[1]) == Val("arg", 2))
    rows = exp_rows(f, {"add": A, "note": lambda i, c=call(r"vector::(push_back|emplace_back)$", (0, r"m_internalServices$")): c(i) and f.strip(i.ops[1]) == Val("arg", 2)}, {"viol": viol, "roudi": roudi, "internal": inn})
    def want(r):
        l = r.lit
        if l.get("viol"):
            return r.ev == () and l["ret"] == "err"
        if l.get("viol") is None or l.get("roudi") is None:
            return False
        if l["roudi"]:
            return r.ev == ("note", "add")
        return l.get("internal") is not None and (r.ev == () and l["ret"] == "err" if l["internal"] else r.ev == ("add",))
    check_rows(cx, f, rows, want, "internal services are remembered and cannot be published by others; a violated policy is an error", "publisher/rules")
    f = cx.fn("isInternal")

    def eq(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call":
            m = re.search(r"ServiceDescription::operator([!=]=)$", k[1].callee or "")
            if m:
                x, y = k[1].ops[:2]
                for u, v in ((x, y), (y, x)):
                    if f.strip(u) == Val("arg", 1) and w.elem(v, st) is not None:
                        return w.elem(v, st), pol == (m.group(1) == "==")
        return None
    w = Walk(f, {"internal": r"^arg0\.m_internalServices$"}, {"eq": eq})
    w.check(cx, lambda r: r.lit.get("eq") is False, "all internal services are compared", "internal", left_ok=lambda r: r.lit.get("eq") is True)
    for r, st, tr in w.rows:
        v = f.ret_value(r, st)
        cx.ob(isinstance(v, Val) and v.k == "c" and bool(v.v) == (not st.get(("fin", "internal"))), f, "a service is internal iff it is among them", "internal/result", r, tr)


def tag0(f, A, k, pol):
    """the expected in the result slot (arg0), written by a call satisfying A, holds a value"""
    if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "load" and v_const(0, 1)(k[2]) and re.search(r"^arg0\.m_store\.data\.m_type_index$", f.addr(k[1])) and any(f.strip(i.ops[0]) == Val("arg", 0) for i in matching(f, A)):
        return pol if k[2].v == 0 else not pol
    return None


@P.rule("R7", "the registry is published iff it changed", min=4)
def r7(cx):
    f = cx.fn("publishServiceRegistry")
    CH = call(r"ServiceRegistry::hasDataChangedSinceLastCall$")
    AL = call(r"PublisherPortUser::tryAllocateChunk$")
    okl = exp_ok(AL, stable=True)
    has = lambda k, pol: pol if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "load" and re.search(r"^arg0\.m_serviceRegistryPublisherPortData\.m_hasValue$", f.addr(k[1])) else None
    has.stable = True
    rows = table(f, {"changed": CH, "alloc": AL, "copy": call(r"ServiceRegistry::ServiceRegistry$|" + MEMCPY.pattern, (1, r"^arg0\.m_serviceRegistry$")), "send": call(r"PublisherPortUser::sendChunk$")}, {"ch": truth_of(CH), "ok": okl, "has": has})
    check_rows(cx, f, rows, lambda r: r.n("changed") == 1 and r.lit.get("ch") is not None and (r.lit["ch"] or r.ev == ("changed",)), "nothing is published when nothing changed", "publish/unchanged")
    check_rows(cx, f, [r for r in rows if r.lit.get("ch")], lambda r: r.lit.get("has") is False or r.n("alloc") == 1, "a changed registry leads to publishing if there is a port", "publish/changed")
    check_rows(cx, f, [r for r in rows if r.n("alloc")], lambda r: r.lit.get("ok") is not None and r.ev[-2:] == (("copy", "send") if r.lit["ok"] else ("changed", "alloc")), "the registry is copied completely before it is sent", "publish/copy")
    f = cx.fn("hasDataChangedSinceLastCall")
    for i in matching(f, is_ret):
        cx.ob(re.search(r"^\*arg0\.m_dataChanged$", f.path(i.ops[0]).replace("(", "").replace(")", "")) is not None or f.derives(i.ops[0], lambda x: isinstance(x, Ins) and x.op == "load" and f.addr(x) == "arg0.m_dataChanged"), f, "the former value is returned", "changed/value", i)
    rows = finals(f, {"flag": r"^arg0\.m_dataChanged$"})
    check_rows(cx, f, rows, lambda r: r.lit["flag"] is not None and v_const(0)(r.lit["flag"]), "the flag is cleared", "changed/cleared")
    for rid, op in (("addPublisherToServiceRegistry", "addPublisher"), ("addServerToServiceRegistry", "addServer"), ("removePublisherFromServiceRegistry", "removePublisher"), ("removeServerFromServiceRegistry", "removeServer")):
        f = cx.fn(rid)
        rows = table(f, {"op": lambda i, c=call(r"ServiceRegistry::%s$" % op): c(i) and f.strip(i.ops[-1]) == Val("arg", 1), "any": call(r"ServiceRegistry::(add|remove)\w+$")})
        check_rows(cx, f, rows, lambda r: r.n("op") == 1 and r.n("any") == 1, "the operation is passed on to the registry", rid)


# ------------------------------------------------------------------ registry
REG = r"^arg[01]\.m_serviceDescriptions$"
FIND = call(r"ServiceRegistry::findIndex$")


def entry(f, v):
    """which registry entry an address belongs to: ('known'|'free'|'back'|'scan', field)"""
    fields = []
    v = f.strip(v)
    n = 0
    while isinstance(v, Ins) and n < 20:
        n += 1
        if v.op == "field":
            fields.insert(0, v.fld)
            v = f.strip(v.ops[0])
        elif v.op == "getelementptr":
            if "off" in v.d and v.d["off"]:
                fields.insert(0, "+%d" % v.d["off"])
            v = f.strip(v.ops[0])
        else:
            break
    name = ".".join(fields)
    if isinstance(v, Ins) and v.op == "call" and re.search(r"vector::(operator\[\]|at)$", v.callee or "") and re.search(REG, f.path(v.ops[0])):
        x = f.strip(v.ops[1])
        if isinstance(x, Ins) and FIND(x):
            return "known", name
        if isinstance(x, Ins) and x.op == "load" and re.search(r"m_freeIndex$", f.addr(x)):
            return "free", name
        return "scan", name
    if isinstance(v, Ins) and v.op == "call" and re.search(r"vector::back$", v.callee or "") and re.search(REG, f.path(v.ops[0])):
        return "back", name
    if isinstance(v, Ins) and v.op in ("phi", "call"):
        return "scan", name
    return None


@P.rule("R8", "the registry counts publishers and servers per service: entries appear with the first and vanish with the last, and every change is noted", min=16)
def r8(cx):
    lay = layout([cx.fn(n) for n in ("addPublisher", "addServer", "removePublisher", "removeServer")])
    off = {o: fld for (c, fld), o in lay.items() if fld in ("publisherCount", "serverCount", "serviceDescription")}

    def fname(n):
        n = re.sub(r"^m_data\.?", "", n)
        m = re.match(r"\+(\d+)$", n)
        return off.get(int(m.group(1))) if m else n
    f = cx.fn("findIndex")
    none = None

    def eq(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call":
            m = re.search(r"ServiceDescription::operator([!=]=)$", k[1].callee or "")
            if m:
                x, y = k[1].ops[:2]
                for u, v in ((x, y), (y, x)):
                    if w.f.strip(u) == Val("arg", 1) and w.elem(v, st) is not None:
                        return w.elem(v, st), pol == (m.group(1) == "==")
        return None

    def used(w, st, k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "load" and re.search(r"m_hasValue$", w.f.addr(k[1])) and w.elem(k[1].ops[0], st) is not None:
            return w.elem(k[1].ops[0], st), pol
        return None
    w = Walk(f, {"entry": REG}, {"used": used, "eq": eq})
    w.check(cx, lambda r: r.lit.get("used") is False or r.lit.get("eq") is False, "every used entry is compared", "findIndex", left_ok=lambda r: r.lit.get("used") and r.lit.get("eq"))
    for r, st, tr in w.rows:
        v = f.ret_value(r, st)
        if st.get(("fin", "entry")):
            cx.ob(isinstance(v, Val) and v.k == "c" and (none is None or none == v.v), f, "a fixed value says that there is none", "findIndex/none", r, tr)
            none = v.v if isinstance(v, Val) else none
        else:
            v = f.strip(r.ops[0])
            while isinstance(v, Ins) and v.op == "phi" and ("it", v.id) not in st and ("phi", v.id) in st:
                v = f.strip(st[("phi", v.id)])
            cx.ob(isinstance(v, Ins) and ("it", v.id) in st, f, "the index of the entry found is returned", "findIndex/index", r, tr)
    nconst = v_const(none)

    def known(k, pol):
        if k[0] == "eq" and isinstance(k[1], Ins) and FIND(k[1]) and nconst(k[2]):
            return not pol
        if k[0] in ("ult",) and isinstance(k[1], Ins) and FIND(k[1]) and nconst(k[2]):
            return pol
        return None
    known.stable = True

    def free(k, pol):
        if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "load" and re.search(r"m_freeIndex$", k[1].fn.addr(k[1])) and nconst(k[2]):
            return not pol
        return None
    free.stable = True
    for rid, cnt, other in (("addPublisher", "publisherCount", "serverCount"), ("addServer", "serverCount", "publisherCount")):
        f = cx.fn(rid)
        EB = call(r"vector::emplace_back$", (0, REG))
        grown = truth_of(EB)

        def step_rows(f=f, cnt=cnt):
            rows = []

            def step(st, i):
                if i.op == "store":
                    a = f.addr(i)
                    v = f.strip(i.ops[0])
                    if re.search(r"^arg1\.m_dataChanged$", a):
                        st["changed"] = v_const(1)(v)
                    elif re.search(r"^arg1\.m_freeIndex$", a):
                        st["free"] = "none" if nconst(v) else "?"
                    elif re.search(r"^arg0\.m_store\.data\.m_type_index$", a):
                        st["ret"] = v.v if isinstance(v, Val) else "?"
                    else:
                        e = entry(f, i.ops[1])
                        if e is not None:
                            n = fname(e[1])
                            if n is None:
                                val = "?"
                            elif isinstance(v, Val):
                                val = v.v
                            else:
                                ld = [x for x in f.ins() if x.op == "load" and entry(f, x.ops[0]) == e]
                                val = "+1" if any(adiff(f, v, x) == {1: 1} for x in ld) else "?"
                            st[("e", e[0], n)] = val
                elif i.op == "call" and re.search(r"ServiceDescription::(ServiceDescription|operator=)$", i.callee or "") and len(i.ops) == 2:
                    e = entry(f, i.ops[0])
                    if e is not None:
                        st[("e", e[0], "sd")] = f.strip(i.ops[1]) == Val("arg", 2)
                return None

            def edge(st, k, pol):
                for n, p in (("known", known), ("freeix", free), ("grown", grown)):
                    t = p(k, pol)
                    if t is not None:
                        if st.get(("lit", n), t) is not t:
                            return False
                        st[("lit", n)] = t
                return None
            for r, st, tr in f.simulate({}, step, edge):
                ents = {}
                for k, v in st.items():
                    if isinstance(k, tuple) and k[0] == "e":
                        ents.setdefault(k[1], {})[k[2]] = v
                rows.append((r, st, tr, ents))
            return rows
        rows = step_rows()
        fresh = {"sd": True, "m_hasValue": 1, cnt: 1, other: 0}
        seen = set()
        for r, st, tr, ents in rows:
            L = lambda n: st.get(("lit", n))
            if st.get("ret") == 1:
                cx.ob(L("known") is False and L("freeix") is not True and L("grown") is False and not ents and not st.get("changed"), f, "adding fails only when there is no entry left and then changes nothing", rid + "/full", r, tr)
                seen.add("full")
                continue
            cx.ob(st.get("ret") == 0 and st.get("changed") is True and len(ents) == 1, f, "exactly one entry is changed and the change is noted", rid + "/one", r, tr)
            kind = next(iter(ents)) if ents else None
            seen.add(kind)
            if kind == "known":
                cx.ob(L("known") is True and ents[kind] == {cnt: "+1"}, f, "a known service is counted once more (%s)" % ents[kind], rid + "/count", r, tr)
            elif kind is not None:
                cx.ob(L("known") is False and ents[kind] == fresh, f, "an unknown service gets a fresh entry with one publisher or server (%s)" % ents[kind], rid + "/fresh", r, tr)
                if kind == "free":
                    cx.ob(L("freeix") is True and st.get("free") == "none", f, "a remembered free entry is used once", rid + "/free", r, tr)
                elif kind == "back":
                    cx.ob(L("grown") is True, f, "the list grew", rid + "/grown", r, tr)
        cx.ob("known" in seen and "full" in seen and len(seen) >= 3, f, "known and unknown services are handled (%s)" % sorted(map(str, seen)), rid + "/some")
        # entries taken over while scanning are unused ones
        w = Walk(f, {"entry": REG}, {"used": used}, {"take": lambda w, st, i: w.elem(i.ops[0], st) if i.op == "call" and re.search(r"ServiceDescription::(ServiceDescription|operator=)$", i.callee or "") and len(i.ops) == 2 and (entry(f, i.ops[0]) or ("",))[0] == "scan" else None})
        w.check(cx, lambda r: r.lit.get("used") is True and r.ev == (), "used entries are passed over", rid + "/scan", left_ok=lambda r: r.lit.get("used") is False and r.ev == ("take", "left"), optional=True)
    for rid, cnt, other in (("removePublisher", "publisherCount", "serverCount"), ("removeServer", "serverCount", "publisherCount"), ("purge", None, None)):
        f = cx.fn(rid)
        cload = lambda v, n: isinstance(v, Ins) and v.op == "load" and entry(f, v.ops[0]) is not None and entry(f, v.ops[0])[0] == "known" and fname(entry(f, v.ops[0])[1]) == n
        stored = [f.strip(i.ops[0]) for i in f.ins() if i.op == "store" and entry(f, i.ops[1]) and fname(entry(f, i.ops[1])[1]) == cnt]

        def rows_of(f=f, cnt=cnt, other=other, cload=cload, stored=stored):
            out = []

            def step(st, i):
                if i.op == "store":
                    a, v = f.addr(i), f.strip(i.ops[0])
                    if re.search(r"^arg0\.m_dataChanged$", a):
                        st["changed"] = v_const(1)(v)
                    elif re.search(r"^arg0\.m_freeIndex$", a):
                        st["free"] = isinstance(v, Ins) and FIND(v)
                    else:
                        e = entry(f, i.ops[1])
                        if e is not None:
                            n = fname(e[1])
                            if n == cnt and isinstance(v, Ins):
                                st["dec"] = st.get("dec", 0) + (1 if e[0] == "known" and any(adiff(f, x, v) == {1: 1} for x in f.ins() if cload(x, cnt)) else 9)
                            elif n == "m_hasValue" and v_const(0)(v):
                                st["reset"] = e[0] == "known"
                            else:
                                st["bad"] = True
                return None

            def edge(st, k, pol):
                t = known(k, pol)
                if t is not None:
                    if st.get(("lit", "known"), t) is not t:
                        return False
                    st[("lit", "known")] = t
                if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "load" and entry(f, k[1].ops[0]) == ("known", "m_hasValue"):
                    if st.get(("lit", "used"), pol) is not pol:
                        return False
                    st[("lit", "used")] = pol
                n = t = None
                if k[0] == "eq" and v_const(0)(k[2]) and isinstance(k[1], Ins):
                    if k[1] in stored:
                        n, t = "last", pol
                    elif cload(k[1], cnt):
                        n, t = ("some", not pol) if not st.get("dec") else ("last", pol)
                    elif cload(k[1], other):
                        n, t = "alone", pol
                elif k[0] == "eq" and v_const(1)(k[2]) and isinstance(k[1], Ins) and cload(k[1], cnt) and not st.get("dec"):
                    n, t = "last", pol
                elif k[0] == "ult" and v_const(1)(k[2]) and isinstance(k[1], Ins):
                    n, t = ("some", not pol) if cload(k[1], cnt) and not st.get("dec") else ("alone", pol) if cload(k[1], other) else (None, None)
                elif k[0] == "ult" and v_const(0)(k[1]) and isinstance(k[2], Ins):
                    n, t = ("some", pol) if cload(k[2], cnt) and not st.get("dec") else ("alone", not pol) if cload(k[2], other) else (None, None)
                if n is not None:
                    if st.get(("lit", n), t) is not t:
                        return False
                    st[("lit", n)] = t
                return None
            for r, st, tr in f.simulate({}, step, edge):
                out.append((r, st, tr))
            return out
        n = 0
        for r, st, tr in rows_of():
            L = lambda x: st.get(("lit", x))
            what = "changed %s, decremented %s, erased %s under %s" % (st.get("changed"), st.get("dec"), st.get("reset"), {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "lit"})
            if cnt is None:
                hit = L("known") is True
                good = ((st.get("reset") is True or L("used") is False) and st.get("free") is True and st.get("changed") is True if hit else not st.get("reset") and not st.get("changed")) and not st.get("bad")
            elif L("known") is True and L("used") is not False and L("some") is True:
                n += 1
                gone = L("last") is True and L("alone") is True
                good = st.get("changed") is True and st.get("dec") == 1 and (st.get("reset") is True and st.get("free") is True if gone else not st.get("reset") and "free" not in st and (L("last") is False or L("alone") is False)) and not st.get("bad")
            else:
                good = (L("known") is False or L("used") is False or L("some") is False) and not any(st.get(x) for x in ("changed", "dec", "reset", "bad")) and "free" not in st
            cx.ob(good, f, "removal counts down once, erases the entry with the last publisher and server, and is noted (%s)" % what, rid + "/table", r, tr)
        if cnt:
            cx.ob(n > 1, f, "removal takes effect", rid + "/some")


@P.rule("R9", "searching the registry reports every entry that matches all given identifiers, and no other", min=5)
def r9(cx):
    CALL = call(r"function_ref::operator\(\)$")
    for rid in ("find", "forEach"):
        f = cx.fn(rid)

        def used(w, st, k, pol):
            if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "load" and re.search(r"m_hasValue$", f.addr(k[1])) and w.elem(k[1].ops[0], st) is not None:
                return w.elem(k[1].ops[0], st), pol
            return None

        def idm(get, arg):
            def p(w, st, k, pol):
                c = k[1]
                if isinstance(c, Ins) and c.op == "call" and re.search(r"^iox::string::(compare|operator==)", c.callee or "") and (k[0] == "b" or v_const(0)(k[2])):
                    a, b = c.ops[:2]
                    for x, y in ((a, b), (b, a)):
                        g = f.strip(x)
                        if isinstance(g, Ins) and g.op == "call" and (g.callee or "").endswith("::" + get) and re.search(r"^arg%d\.m_data" % arg, f.path(y)):
                            return w.elem(g, st), pol if (k[0] == "eq" or "==" in c.callee) else not pol
                return None
            return p

        def given(arg):
            def p(k, pol):
                return pol if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "load" and f.addr(k[1]) == "arg%d.m_hasValue" % arg else None
            p.stable = True
            return p
        ids = {"service": ("getServiceIDString", 1), "instance": ("getInstanceIDString", 2), "event": ("getEventIDString", 3)} if rid == "find" else {}
        lits = {"used": used}
        lits.update({n: idm(*a) for n, a in ids.items()})
        w = Walk(f, {"entry": REG}, lits, {"report": lambda w, st, i: (w.elem(i.ops[1], st) or "other") if CALL(i) else None}, glits={"g" + n: given(a[1]) for n, a in ids.items()})

        def spec(r):
            if r.lit.get("used") is not True:
                return r.lit.get("used") is False and r.ev == ()
            # True: matches or not asked for; False: differs; None: not looked at
            t = [True if r.lit.get("g" + n) is False else r.lit.get(n) for n in ids]
            if False in t:
                return r.ev == ()
            return None not in t and r.ev == ("report",)
        w.check(cx, spec, "an entry is reported iff it matches all identifiers asked for", rid)
