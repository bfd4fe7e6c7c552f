from engine.core import Prop
from rules.lib import *

P = Prop("P13")
P.explain = """
Complete transition tables: for every state, request flag and message type the paths of each port's state machine are enumerated
with these inputs propagated as constants; on every path the state at the return, the response (type, service, queue, history) and
the queue operations are compared with the protocol."""
D = "iceoryx_posh/source/popo/ports/"
OPQ = [r"^iox::popo::Chunk(Sender|Receiver|Distributor|QueuePopper)::", r"^iox::capro::ServiceDescription::", r"^iox::capro::operator"]
P.group("r", [D + n + ".cpp" for n in ("publisher_port_roudi", "subscriber_port_single_producer", "subscriber_port_multi_producer", "client_port_roudi", "server_port_roudi", "publisher_port_user", "subscriber_port_user", "client_port_user", "server_port_user", "base_port", "subscriber_port_roudi")] + ["iceoryx_posh/source/capro/capro_message.cpp"], opaque=OPQ)
for a, c in (("pub", "PublisherPortRouDi"), ("sub1", "SubscriberPortSingleProducer"), ("subn", "SubscriberPortMultiProducer"), ("cli", "ClientPortRouDi"), ("srv", "ServerPortRouDi")):
    P.root("r", a + "_get", "iox::popo::%s::tryGetCaProMessage" % c)
    P.root("r", a + "_dis", "iox::popo::%s::dispatchCaProMessageAndGetPossibleResponse" % c)
for a, c, ns in (("pub", "PublisherPortUser", ("offer", "stopOffer", "isOffered", "sendChunk")), ("sub", "SubscriberPortUser", ("subscribe", "unsubscribe", "getSubscriptionState")),
                 ("cli", "ClientPortUser", ("connect", "disconnect", "getConnectionState")), ("srv", "ServerPortUser", ("offer", "stopOffer", "isOffered"))):
    for n in ns:
        P.root("r", "u%s_%s" % (a, n), "iox::popo::%s::%s" % (c, n))
for a, c in (("pub", "PublisherPortRouDi"), ("sub", "SubscriberPortRouDi"), ("cli", "ClientPortRouDi"), ("srv", "ServerPortRouDi")):
    P.root("r", a + "_rel", "iox::popo::%s::releaseAllChunks" % c)
P.group("d", [D + n + ".cpp" for n in ("client_port_data", "server_port_data", "subscriber_port_data", "publisher_port_data", "base_port_data")] + ["iceoryx_posh/source/roudi/port_pool.cpp"],
        opaque=[r"^iox::popo::(ChunkSenderData|ChunkReceiverData|BasePortData)::", r"^iox::capro::", r"^iox::popo::(Publisher|Subscriber)Options::", r"VariantQueue::", r"::emplace$"])
for a, c in (("cli", "ClientPortData"), ("srv", "ServerPortData"), ("sub", "SubscriberPortData"), ("pub", "PublisherPortData")):
    P.root("d", "d" + a, "iox::popo::%s::%s" % (c, c))
P.root("d", "pool_sub", "iox::roudi::PortPool::addSubscriberPort")

OFFER, STOP, SUB, UNSUB, CONN, DISC, ACK, NACK = 2, 3, 4, 5, 6, 7, 8, 9
TYPES = list(range(0, 14))
NOT, REQ, YES, UNREQ, WAIT = 0, 1, 2, 3, 4  # states of subscription and connection
NM = {2: "OFFER", 3: "STOP_OFFER", 4: "SUB", 5: "UNSUB", 6: "CONNECT", 7: "DISCONNECT", 8: "ACK", 9: "NACK"}
SELF = r"\*arg1\.m_basePortDataPtr"
V = {"req": r"^%s\.m_(offering|subscribe|connect)Requested\b" % SELF, "state": r"^%s\.m_(subscriptionState|connectionState|offered)\b" % SELF, "msg": r"^arg2\.m_type$",
     "queue": r"^arg2\.m_chunkQueueData$"}
EV = {"add": call(r"ChunkDistributor::tryAddQueue$"), "rem": call(r"ChunkDistributor::tryRemoveQueue$"), "remall": call(r"ChunkDistributor::removeAllQueues$"),
      "clear": call(r"Chunk(Receiver|QueuePopper)::(clear|releaseAll)$")}


class Port:
    """one function of a port with its layout"""

    def __init__(self, cx, rid):
        self.f = cx.fn(rid)
        self.rid = rid
        L = layout(cx.fns("pub_get", "pub_dis", "subn_get", "subn_dis", "cli_get", "cli_dis", "srv_get", "srv_dis", "sub1_get", "sub1_dis"))
        self.has = L.get(("iox::optional", "m_hasValue"))
        self.dat = L.get(("iox::optional", "m_data"))
        self.off = {n: L.get(("iox::capro::CaproMessage", n)) for n in ("m_type", "m_serviceType", "m_serviceDescription", "m_chunkQueueData", "m_historyCapacity")}
        self.svc = L.get(("iox::popo::BasePortData", "m_serviceDescription"))
        if None in (self.has, self.dat, self.svc) or None in (self.off["m_type"], self.off["m_serviceDescription"], self.off["m_chunkQueueData"]):
            raise RuntimeError("layout of CaproMessage not found")
        if self.off["m_serviceType"] is None:
            self.off["m_serviceType"] = self.off["m_type"] + 1
        if self.off["m_historyCapacity"] is None:
            self.off["m_historyCapacity"] = self.off["m_chunkQueueData"] + 8
        lits = {n + "ok": exp_ok(EV[n], stable=True) for n in ("add", "rem") if matching(self.f, EV[n])}
        self.sim = Sim(self.f, V, EV, lits)

    def response(self, row):
        """None | {'type', 'stype', 'svc', 'queue', 'hist'} of the returned optional"""
        s, f = self.sim, self.f
        h = s.at(row, "arg0", self.has)
        if h == 0:
            return None
        if h != 1:
            return {"type": "?"}
        g = lambda n: s.at(row, "arg0", self.dat + self.off[n])
        return {"type": g("m_type"), "stype": g("m_serviceType"), "svc": g("m_serviceDescription"), "queue": g("m_chunkQueueData"), "hist": g("m_historyCapacity")}

    def own_service(self, x):
        return isinstance(x, tuple) and x[0] == "init" and (x[1] in ("*arg1.m_basePortDataPtr",) and x[2] == self.svc or x[1] == "arg2" and x[2] == self.off["m_serviceDescription"])

    def own_queue(self, x):
        return isinstance(x, Ins) and re.search(r"^%s\.m_chunkReceiverData$" % SELF, self.f.path(x)) is not None

    def hist_is(self, x, rx):
        return isinstance(x, Ins) and re.search(rx, self.f.path(x).lstrip("*")) is not None


def table_check(cx, rid, dom, spec, text):
    """spec(assignment, port, row) -> True | reason; spec.legal(assignment): must not be fatal"""
    p = Port(cx, rid)
    for a in product(dom):
        rows = p.sim.run(a)
        name = ",".join("%s=%s" % (k, NM.get(v, v) if k == "msg" else v) for k, v in sorted(a.items()) if k != "queue")
        legal, chk = spec(a, p)
        if legal and not rows:
            cx.ob(False, p.f, "%s: %s must be handled and not be treated as protocol violation" % (text, name), name)
            continue
        bad = None
        for r in rows:
            w = chk(r)
            if w is not True:
                bad = (r, w)
                break
        cx.ob(bad is None, p.f, "%s: %s: %s" % (text, name, bad[1] if bad else "as specified"), name, bad[0].ret if bad else None, bad[0].trail if bad else None)


def outcome(p, r, state, resp=None, ev=()):
    s = p.sim.final(r, "state")
    if s != state:
        return "state becomes %r instead of %r" % (s, state)
    if tuple(r.ev) != tuple(ev):
        return "queue operations %r instead of %r" % (tuple(r.ev), tuple(ev))
    x = p.response(r)
    if resp is None:
        return True if x is None else "an unexpected message is returned"
    if x is None:
        return "no message is returned"
    if x["type"] != resp["type"]:
        return "message type is %r instead of %r" % (x["type"], NM[resp["type"]])
    if not p.own_service(x["svc"]):
        return "message does not name the port's service"
    if "stype" in resp and x["stype"] != resp["stype"]:
        return "wrong service type"
    if resp.get("queue") and not p.own_queue(x["queue"]):
        return "message does not carry the port's queue"
    if "hist" in resp and not (x["hist"] == resp["hist"] if isinstance(resp["hist"], int) else p.hist_is(x["hist"], resp["hist"])):
        return "wrong history in the message"
    return True


def violation(p, r, a):
    """protocol violations end fatally; if not they must change nothing"""
    return outcome(p, r, a["state"]) if "state" in a else True


HREQ = r"m_options\.historyRequest$"
HCAP = r"getHistoryCapacity\(|m_historyCapacity"


@P.rule("R1", "a publisher that was asked to offer or to stop emits the matching message exactly when its state changes; stopping removes all its queues", min=4)
def r1(cx):
    def spec(a, p):
        if a["req"] and not a["state"]:
            return True, lambda r: outcome(p, r, 1, dict(type=OFFER, stype=1, hist=HCAP))
        if not a["req"] and a["state"]:
            return True, lambda r: outcome(p, r, 0, dict(type=STOP, stype=1), ("remall",))
        return True, lambda r: outcome(p, r, a["state"])
    table_check(cx, "pub_get", {"req": [0, 1], "state": [0, 1]}, spec, "publisher")


def queue_op(cx, p, ev, ix, tag, hist):
    """the add/remove call works on the port's own sender and the queue named in the message"""
    for i in matching(p.f, EV[ev]):
        a = [p.f.path(o) for o in i.ops]
        ok = any(re.search(r"^arg1\.m_chunkSender$", x) for x in a) and any(re.search(r"^\*arg2\.m_chunkQueueData$", x) for x in a)
        cx.ob(ok, p.f, "%s uses the port's sender and the queue named in the message" % ev, tag, i)
        if hist and ev == "add":
            cx.ob(any(re.search(r"^\*arg2\.m_historyCapacity$", x) for x in a), p.f, "the requested history is passed on", tag + "/history", i)


@P.rule("R2", "an offered publisher adds or removes exactly the queue named in a SUB or UNSUB and acknowledges iff that succeeded; otherwise it refuses", min=20)
def r2(cx):
    def spec(a, p):
        m = a["msg"]
        if not a["state"]:
            return m in (SUB, UNSUB), lambda r: outcome(p, r, 0, dict(type=NACK))
        if m in (SUB, UNSUB):
            e, l = ("add", "addok") if m == SUB else ("rem", "remok")
            return True, lambda r: outcome(p, r, 1, dict(type=ACK if r.lit.get(l) else NACK), (e,)) if r.lit.get(l) is not None else "the result of the operation is ignored"
        return False, lambda r: outcome(p, r, 1, dict(type=NACK)) if p.response(r) else violation(p, r, a)
    table_check(cx, "pub_dis", {"state": [0, 1], "msg": TYPES, "queue": [1 << 12]}, spec, "publisher")
    p = Port(cx, "pub_dis")
    for e in ("add", "rem"):
        req_some(cx, p.f, matching(p.f, EV[e]), "the publisher can %s queues" % e, e)
        queue_op(cx, p, e, 0, "queue", True)


@P.rule("R3", "a subscriber emits SUB or UNSUB with its own queue and requested history exactly when the request differs from its state", min=10)
def r3(cx):
    sub = dict(type=SUB, queue=True, hist=HREQ)
    uns = dict(type=UNSUB, queue=True)

    def multi(a, p):
        if a["req"] and a["state"] == NOT:
            return True, lambda r: outcome(p, r, YES, sub)
        if not a["req"] and a["state"] == YES:
            return True, lambda r: outcome(p, r, NOT, uns)
        return True, lambda r: outcome(p, r, a["state"])
    table_check(cx, "subn_get", {"req": [0, 1], "state": [NOT, YES]}, multi, "subscriber (many publishers)")

    def single(a, p):
        if a["req"] and a["state"] == NOT:
            return True, lambda r: outcome(p, r, REQ, sub)
        if not a["req"] and a["state"] == YES:
            return True, lambda r: outcome(p, r, UNREQ, uns)
        if not a["req"] and a["state"] == WAIT:
            return True, lambda r: outcome(p, r, NOT)
        return True, lambda r: outcome(p, r, a["state"])
    table_check(cx, "sub1_get", {"req": [0, 1], "state": [NOT, REQ, YES, UNREQ, WAIT]}, single, "subscriber (one publisher)")


@P.rule("R4", "a subscriber answers an OFFER with SUB iff it is to be subscribed and follows the answers of the publisher", min=60)
def r4(cx):
    sub = dict(type=SUB, queue=True, hist=HREQ)

    def multi(a, p):
        m = a["msg"]
        if m == OFFER and a["state"] == YES:
            return True, lambda r: outcome(p, r, YES, sub)
        if m in (OFFER, STOP, ACK, NACK):
            return True, lambda r: outcome(p, r, a["state"])
        return False, lambda r: violation(p, r, a)
    table_check(cx, "subn_dis", {"state": [NOT, YES], "msg": TYPES}, multi, "subscriber (many publishers)")

    def single(a, p):
        m, s = a["msg"], a["state"]
        if m == OFFER and s == WAIT:
            return True, lambda r: outcome(p, r, REQ, sub)
        n = {(STOP, YES): WAIT, (ACK, REQ): YES, (ACK, UNREQ): NOT, (NACK, REQ): WAIT, (NACK, UNREQ): NOT, (OFFER, NOT): NOT, (STOP, NOT): NOT}.get((m, s))
        if n is not None:
            return True, lambda r: outcome(p, r, n)
        return False, lambda r: violation(p, r, a)
    table_check(cx, "sub1_dis", {"state": [NOT, REQ, YES, UNREQ, WAIT], "msg": TYPES}, single, "subscriber (one publisher)")


@P.rule("R5", "a client emits CONNECT or DISCONNECT with its response queue when the request differs from its state and follows the answers; it sends to the server only while connected", min=60)
def r5(cx):
    con, dis = dict(type=CONN, queue=True, hist=0), dict(type=DISC, queue=True)

    def get(a, p):
        s = a["state"]
        if a["req"] and s == NOT:
            return True, lambda r: outcome(p, r, REQ, con)
        if not a["req"] and s == YES:
            return True, lambda r: outcome(p, r, UNREQ, dis, ("remall",))
        if not a["req"] and s == WAIT:
            return True, lambda r: outcome(p, r, NOT)
        return True, lambda r: outcome(p, r, s)
    table_check(cx, "cli_get", {"req": [0, 1], "state": [NOT, REQ, YES, UNREQ, WAIT]}, get, "client")

    def dsp(a, p):
        m, s = a["msg"], a["state"]
        if (m, s) in ((CONN, NOT), (OFFER, WAIT)):
            return True, lambda r: outcome(p, r, REQ, con)
        if (m, s) == (ACK, REQ):
            return True, lambda r: outcome(p, r, YES, None, ("add",)) if r.lit.get("addok") is not False else "a refused queue is taken as connection"
        if (m, s) == (STOP, YES):
            return True, lambda r: outcome(p, r, WAIT, None, ("remall",))
        if (m, s) == (DISC, YES):
            return True, lambda r: outcome(p, r, UNREQ, dis, ("remall",))
        n = {(OFFER, NOT): NOT, (NACK, REQ): WAIT, (DISC, WAIT): NOT, (ACK, UNREQ): NOT, (NACK, UNREQ): NOT}.get((m, s))
        if n is not None:
            return True, lambda r: outcome(p, r, n)
        return False, lambda r: violation(p, r, a)
    table_check(cx, "cli_dis", {"state": [NOT, REQ, YES, UNREQ, WAIT], "msg": TYPES, "queue": [1 << 12]}, dsp, "client")
    p = Port(cx, "cli_dis")
    req_some(cx, p.f, matching(p.f, EV["add"]), "the client stores the request queue of the server", "add")
    queue_op(cx, p, "add", 0, "queue", False)


@P.rule("R6", "a server offers and stops as asked, adds a client's queue on CONNECT and removes it on DISCONNECT, and acknowledges with its request queue iff that succeeded", min=40)
def r6(cx):
    def get(a, p):
        if a["req"] and not a["state"]:
            return True, lambda r: outcome(p, r, 1, dict(type=OFFER, stype=2))
        if not a["req"] and a["state"]:
            return True, lambda r: outcome(p, r, 0, dict(type=STOP, stype=2), ("remall",))
        return True, lambda r: outcome(p, r, a["state"])
    table_check(cx, "srv_get", {"req": [0, 1], "state": [0, 1]}, get, "server")

    def dsp(a, p):
        m = a["msg"]
        if not a["state"]:
            if m == OFFER:
                return True, lambda r: outcome(p, r, 1, dict(type=OFFER))
            return m in (CONN, DISC, STOP), lambda r: outcome(p, r, 0, dict(type=NACK)) if m in (CONN, DISC, STOP) else violation(p, r, a)
        if m == STOP:
            return True, lambda r: outcome(p, r, 0, dict(type=STOP), ("remall",))
        if m == OFFER:
            return True, lambda r: outcome(p, r, 1, dict(type=NACK))
        if m == CONN:
            if not a["queue"]:
                return True, lambda r: outcome(p, r, 1, dict(type=NACK))
            return True, lambda r: (outcome(p, r, 1, dict(type=ACK, queue=True, hist=0) if r.lit["addok"] else dict(type=NACK), ("add",)) if r.lit.get("addok") is not None else "the result of the operation is ignored")
        if m == DISC:
            return bool(a["queue"]), lambda r: (outcome(p, r, 1, dict(type=ACK if r.lit["remok"] else NACK), ("rem",)) if r.lit.get("remok") is not None else "the result of the operation is ignored")
        return False, lambda r: violation(p, r, a)
    table_check(cx, "srv_dis", {"state": [0, 1], "msg": TYPES, "queue": [0, 1 << 12]}, dsp, "server")
    p = Port(cx, "srv_dis")
    for e in ("add", "rem"):
        req_some(cx, p.f, matching(p.f, EV[e]), "the server can %s queues" % e, e)
        queue_op(cx, p, e, 0, "queue", True)


@P.rule("R7", "requests of the user end up in the request flag whatever it was before; subscribing anew starts with an empty queue; a publisher that does not offer only keeps its chunk in the history", min=10)
def r7(cx):
    U = {"req": r"^\*arg0\.m_basePortDataPtr\.m_(offering|subscribe|connect)Requested\b", "state": r"^\*arg0\.m_basePortDataPtr\.m_(subscriptionState|connectionState|offered)\b"}
    for rid, want in (("upub_offer", 1), ("upub_stopOffer", 0), ("usub_subscribe", 1), ("usub_unsubscribe", 0), ("ucli_connect", 1), ("ucli_disconnect", 0), ("usrv_offer", 1), ("usrv_stopOffer", 0)):
        f = cx.fn(rid)
        for b in (0, 1):
            s = Sim(f, U, {"clear": call(r"Chunk(Receiver|QueuePopper)::clear$"), "set": store(U["req"])})
            rows = s.run({"req": b})
            check_rows(cx, f, rows, lambda r: s.final(r, "req") == want and s.tags["req"], "the request flag becomes %d when it was %d" % (want, b), "%s/%d" % (rid, b))
            if rid == "usub_subscribe" and b == 0:
                check_rows(cx, f, rows, lambda r: r.n("clear") == 1 and r.before("clear", "set"), "the queue is emptied before the subscription is requested", rid + "/clear")
            elif rid == "usub_subscribe":
                check_rows(cx, f, rows, lambda r: r.n("clear") == 0, "the queue of a running subscription is not emptied", rid + "/keep")
    f = cx.fn("upub_sendChunk")
    for b in (0, 1):
        s = Sim(f, U, {"send": call(r"ChunkSender::send$", (1, r"^arg1$")), "push": call(r"ChunkSender::pushToHistory$", (1, r"^arg1$"))})
        check_rows(cx, f, s.run({"req": b}), lambda r: r.ev == (("send",) if b else ("push",)), "the chunk is %s" % ("sent" if b else "kept in the history"), "send/%d" % b)
    for rid, n in (("upub_isOffered", "req"), ("usrv_isOffered", "req"), ("usub_getSubscriptionState", "state"), ("ucli_getConnectionState", "state")):
        f = cx.fn(rid)
        for b in (0, 1, 2) if n == "state" else (0, 1):
            s = Sim(f, U)
            check_rows(cx, f, s.run({n: b}), lambda r: s.tags[n] and s.val(f.ret_value(r.ret, r.st), r.st) == b, "returns the current value", "%s/%d" % (rid, b))


@P.rule("R8", "cleaning up a port gives up the chunks of its sender and of its receiver", min=6)
def r8(cx):
    for rid, want in (("pub_rel", ("ChunkSender",)), ("sub_rel", ("ChunkReceiver",)), ("cli_rel", ("ChunkSender", "ChunkReceiver")), ("srv_rel", ("ChunkSender", "ChunkReceiver"))):
        f = cx.fn(rid)
        for w in want:
            on_all_returns(cx, f, call(r"%s::releaseAll$" % w), "%s releases everything" % w, "%s/%s" % (rid, w))


@P.rule("R9", "the queue of a port discards the oldest or blocks as its options say, with the capacity asked for; requests on creation are taken over", min=10)
def r9(cx):
    for rid, pol, cap, req in (("dcli", "responseQueueFullPolicy", "responseQueueCapacity", "connectOnCreate"), ("dsrv", "requestQueueFullPolicy", "requestQueueCapacity", "offerOnCreate")):
        f = cx.fn(rid)
        for b, qt in ((0, 2), (1, 3)):
            s = Sim(f, {"pol": r"^arg\d\.%s$" % pol}, {"rcv": call(r"ChunkReceiverData::ChunkReceiverData$")})
            rs = s.run({"pol": b})
            cs = matching(f, s.events["rcv"])
            req_some(cx, f, cs, "the receiver is constructed", rid + "/receiver")
            for c in cs:
                bad = [r for r in rs if not any(s.val(o, r.st) == qt for o in c.ops[1:2]) or s.val(c.ops[2], r.st) != b]
                cx.ob(bool(rs) and not bad, f, "%s gives a queue that %s" % (pol, "discards the oldest" if b else "blocks the producer"), "%s/queue/%d" % (rid, b), c)
        l = matching(f, call(r"VariantQueue::setCapacity$"))
        req_some(cx, f, l, "the capacity is set", rid + "/capacity")
        for i in l:
            cx.ob(re.search(r"\.%s$" % cap, f.path(i.ops[1])) is not None, f, "with the capacity of the options", rid + "/capacity-value", i)
        on_all_returns(cx, f, call(r"VariantQueue::setCapacity$"), "the capacity is always set", rid + "/capacity-always")
    for rid, req, fl in (("dcli", "connectOnCreate", "m_connectRequested"), ("dsrv", "offerOnCreate", "m_offeringRequested"), ("dsub", "subscribeOnCreate", "m_subscribeRequested"), ("dpub", "offerOnCreate", "m_offeringRequested")):
        f = cx.fn(rid)
        for b in (0, 1):
            s = Sim(f, {"on": r"^arg\d\.%s$" % req, "flag": r"^arg0\.%s\b" % fl})
            check_rows(cx, f, s.run({"on": b}), lambda r: s.final(r, "flag") == b, "%s decides the initial request" % req, "%s/%s/%d" % (rid, req, b))
    f = cx.fn("dsub")
    l = matching(f, call(r"VariantQueue::setCapacity$"))
    req_some(cx, f, l, "the capacity is set", "dsub/capacity")
    for i in l:
        cx.ob(re.search(r"\.queueCapacity$", f.path(i.ops[1])) is not None, f, "with the capacity of the options", "dsub/capacity-value", i)
    on_all_returns(cx, f, call(r"VariantQueue::setCapacity$"), "the capacity is always set", "dsub/capacity-always")
    l = matching(f, call(r"ChunkReceiverData::ChunkReceiverData$"))
    req_some(cx, f, l, "the receiver is constructed", "dsub/receiver")
    for i in l:
        a = [f.path(o) for o in i.ops]
        cx.ob("arg4" in a and any(x.endswith(".queueFullPolicy") for x in a), f, "queue type and policy are handed to the receiver", "dsub/receiver-args", i)
    f = cx.fn("pool_sub")
    l = matching(f, call(r"FixedPositionContainer::emplace$"))
    req_some(cx, f, l, "the port is put into the pool", "pool")
    for b, qt in ((0, 2), (1, 3)):
        s = Sim(f, {"pol": r"^arg\d\.queueFullPolicy$"}, {"emplace": call(r"FixedPositionContainer::emplace$")})
        for c in l:
            def okr(r):
                vs = [s.at(r, *s.loc(o, r.st)) for o in c.ops[2:] if s.loc(o, r.st)] + [s.val(o, r.st) for o in c.ops[2:]]
                return qt in vs and (5 - qt) not in vs
            check_rows(cx, f, s.run({"pol": b}), lambda r: not r.n("emplace") or okr(r), "the policy gives a queue that %s" % ("discards the oldest" if b else "blocks the producer"), "pool/queue/%d" % b)
            cx.ob(any(f.path(o) == "arg4" for o in c.ops), f, "the options are handed to the port", "pool/options", c)
