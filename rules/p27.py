import os

from engine.core import Prop
from rules.lib import *

P = Prop("P27")
B = "iceoryx_binding_c/source/"
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "binding.cpp")
P.explain = """
Every function of the C API is compared with a table that says which operation of the C++ API it stands for, where each operand comes
from and what becomes of the outcome; translations of enumerations are evaluated for every enumerator and compared by name; results
handed out in caller-provided arrays are bounded and counted."""
OPQ = [r"^iox::popo::(?!.*lambda)(?!NotificationCallback)", r"^iox::runtime::(?!.*lambda)", r"^iox::mepoo::", r"^cpp2c::", r"^c2cpp::", r"^TranslateServiceDescription", r"^iox::capro::", r"^cpp2c_", r"^iox::string::"]


class To:
    """an operand: argument n of the C function translated by c2cpp::fn"""

    def __init__(self, fn, n):
        self.fn, self.n = fn, n


class Hdr:
    """the chunk or request header of the payload passed as argument n"""

    def __init__(self, cls, n):
        self.cls, self.n = cls, n


class Cb:
    """a callback made of argument fn and argument ctx (None: no context)"""

    def __init__(self, fn, ctx=None):
        self.fn, self.ctx = fn, ctx


class K:
    def __init__(self, v):
        self.v = v


SPEC = {}


def F(g, name, op, args=(), ret=None, this="self", out=None):
    SPEC[name] = (op, args, ret, this, out)
    P.root(g, name, name)


# --- which operation each function stands for
P.group("client", [B + "c_client.cpp"], opaque=OPQ)
C = "UntypedClient(Impl)?::|BaseClient::"
F("client", "iox_client_loan_request", "(%s)loan$" % C, (2, K("align")), ("exp", "allocationResult", "iox_AllocationResult", "AllocationResult_SUCCESS"), out=(1, None))
F("client", "iox_client_loan_aligned_request", "(%s)loan$" % C, (2, 3), ("exp", "allocationResult", "iox_AllocationResult", "AllocationResult_SUCCESS"), out=(1, None))
F("client", "iox_client_release_request", "(%s)releaseRequest$" % C, (1,))
F("client", "iox_client_send", "(%s)send$" % C, (1,), ("exp", "clientSendResult", "iox_ClientSendResult", "ClientSendResult_SUCCESS"))
F("client", "iox_client_connect", "(%s)connect$" % C)
F("client", "iox_client_disconnect", "(%s)disconnect$" % C)
F("client", "iox_client_get_connection_state", "(%s)getConnectionState$" % C, (), ("tr", "cpp2c::connectionState"))
F("client", "iox_client_take_response", "(%s)take$" % C, (), ("exp", "chunkReceiveResult", "iox_ChunkReceiveResult", "ChunkReceiveResult_SUCCESS"), out=(1, None))
F("client", "iox_client_release_response", "(%s)releaseResponse$" % C, (1,))
F("client", "iox_client_release_queued_responses", "(%s)releaseQueuedResponses$" % C)
F("client", "iox_client_has_responses", "(%s)hasResponses$" % C, (), "val")
F("client", "iox_client_has_missed_responses", "(%s)hasMissedResponses$" % C, (), "val")
F("client", "iox_client_get_service_description", "(%s)getServiceDescription$" % C, (), ("desc",))
P.group("server", [B + "c_server.cpp"], opaque=OPQ)
S = "UntypedServer(Impl)?::|BaseServer::"
F("server", "iox_server_take_request", "(%s)take$" % S, (), ("exp", "serverRequestResult", "iox_ServerRequestResult", "ServerRequestResult_SUCCESS"), out=(1, None))
F("server", "iox_server_release_request", "(%s)releaseRequest$" % S, (1,))
F("server", "iox_server_loan_response", "(%s)loan$" % S, (Hdr("RequestHeader::fromPayload", 1), 3, K("align")), ("exp", "allocationResult", "iox_AllocationResult", "AllocationResult_SUCCESS"), out=(2, None))
F("server", "iox_server_loan_aligned_response", "(%s)loan$" % S, (Hdr("RequestHeader::fromPayload", 1), 3, 4), ("exp", "allocationResult", "iox_AllocationResult", "AllocationResult_SUCCESS"), out=(2, None))
F("server", "iox_server_send", "(%s)send$" % S, (1,), ("exp", "serverSendResult", "iox_ServerSendResult", "ServerSendResult_SUCCESS"))
F("server", "iox_server_release_response", "(%s)releaseResponse$" % S, (1,))
F("server", "iox_server_get_service_description", "(%s)getServiceDescription$" % S, (), ("desc",))
F("server", "iox_server_offer", "(%s)offer$" % S)
F("server", "iox_server_stop_offer", "(%s)stopOffer$" % S)
for c, n in (("is_offered", "isOffered"), ("has_clients", "hasClients"), ("has_requests", "hasRequests"), ("has_missed_requests", "hasMissedRequests")):
    F("server", "iox_server_" + c, "(%s)%s$" % (S, n), (), "val")
F("server", "iox_server_release_queued_requests", "(%s)releaseQueuedRequests$" % S)
P.group("pub", [B + "c_publisher.cpp"], opaque=OPQ)
PP = "PublisherPortUser::"
AL = ("exp", "allocationResult", "iox_AllocationResult", "AllocationResult_SUCCESS")
UP = "ChunkHeader::userPayload"
F("pub", "iox_pub_loan_chunk", PP + "tryAllocateChunk$", (2, K("align"), K("nosize"), K("noalign")), AL, "port", (1, UP))
F("pub", "iox_pub_loan_aligned_chunk", PP + "tryAllocateChunk$", (2, 3, K("nosize"), K("noalign")), AL, "port", (1, UP))
F("pub", "iox_pub_loan_aligned_chunk_with_user_header", PP + "tryAllocateChunk$", (2, 3, 4, 5), AL, "port", (1, UP))
F("pub", "iox_pub_release_chunk", PP + "releaseChunk$", (Hdr("ChunkHeader::fromUserPayload", 1),), None, "port")
F("pub", "iox_pub_publish_chunk", PP + "sendChunk$", (Hdr("ChunkHeader::fromUserPayload", 1),), None, "port")
F("pub", "iox_pub_offer", PP + "offer$", (), None, "port")
F("pub", "iox_pub_stop_offer", PP + "stopOffer$", (), None, "port")
F("pub", "iox_pub_is_offered", PP + "isOffered$", (), "val", "port")
F("pub", "iox_pub_has_subscribers", PP + "hasSubscribers$", (), "val", "port")
F("pub", "iox_pub_get_service_description", "::getCaProServiceDescription$", (), ("desc",), "port")
P.group("sub", [B + "c_subscriber.cpp"], opaque=OPQ)
SP = "SubscriberPortUser::"
F("sub", "iox_sub_subscribe", SP + "subscribe$", (), None, "port")
F("sub", "iox_sub_unsubscribe", SP + "unsubscribe$", (), None, "port")
F("sub", "iox_sub_get_subscription_state", SP + "getSubscriptionState$", (), ("tr", "cpp2c::subscribeState"), "port")
F("sub", "iox_sub_take_chunk", SP + "tryGetChunk$", (), ("exp", "chunkReceiveResult", "iox_ChunkReceiveResult", "ChunkReceiveResult_SUCCESS"), "port", (1, UP))
F("sub", "iox_sub_release_chunk", SP + "releaseChunk$", (Hdr("ChunkHeader::fromUserPayload", 1),), None, "port")
F("sub", "iox_sub_release_queued_chunks", SP + "releaseQueuedChunks$", (), None, "port")
F("sub", "iox_sub_has_chunks", SP + "hasNewChunks$", (), "val", "port")
F("sub", "iox_sub_has_lost_chunks", SP + "hasLostChunksSinceLastCall$", (), "val", "port")
F("sub", "iox_sub_get_service_description", "::getCaProServiceDescription$", (), ("desc",), "port")
P.group("ws", [B + "c_wait_set.cpp"], opaque=OPQ)
P.group("lis", [B + "c_listener.cpp"], opaque=OPQ)
WR = ("exp", "waitSetResult", "iox_WaitSetResult", "WaitSetResult_SUCCESS")
LR = ("exp", "listenerResult", "iox_ListenerResult", "ListenerResult_SUCCESS")
for w, e in (("subscriber", "subscriberEvent"), ("client", "clientEvent"), ("server", "serverEvent"), ("service_discovery", "serviceDiscoveryEvent"), ("user_trigger", None)):
    ev = (To(e, 2),) if e else ()
    k = 2 + len(ev)
    F("ws", "iox_ws_attach_%s_event" % w, "WaitSet::attachEvent$", (1,) + ev + (k, Cb(k + 1)), WR)
    F("ws", "iox_ws_attach_%s_event_with_context_data" % w, "WaitSet::attachEvent$", (1,) + ev + (k, Cb(k + 1, k + 2)), WR)
    F("ws", "iox_ws_detach_%s_event" % w, "WaitSet::detachEvent$", (1,) + ev)
    F("lis", "iox_listener_attach_%s_event" % w, "Listener(Impl)?::attachEvent$", (1,) + ev + (Cb(k),), LR)
    F("lis", "iox_listener_attach_%s_event_with_context_data" % w, "Listener(Impl)?::attachEvent$", (1,) + ev + (Cb(k, k + 1),), LR)
    F("lis", "iox_listener_detach_%s_event" % w, "Listener(Impl)?::detachEvent$", (1,) + ev)
    if w in ("subscriber", "client", "server"):
        st = (To(e.replace("Event", "State"), 2),)
        F("ws", "iox_ws_attach_%s_state" % w, "WaitSet::attachState$", (1,) + st + (3, Cb(4)), WR)
        F("ws", "iox_ws_attach_%s_state_with_context_data" % w, "WaitSet::attachState$", (1,) + st + (3, Cb(4, 5)), WR)
        F("ws", "iox_ws_detach_%s_state" % w, "WaitSet::detachState$", (1,) + st)
for n in ("size", "capacity"):
    F("ws", "iox_ws_" + n, "WaitSet::%s$" % n, (), "val")
    F("lis", "iox_listener_" + n, "Listener(Impl)?::%s$" % n, (), "val")
F("ws", "iox_ws_mark_for_destruction", "WaitSet::markForDestruction$")
P.group("ut", [B + "c_user_trigger.cpp"], opaque=OPQ)
F("ut", "iox_user_trigger_trigger", "UserTrigger::trigger$")
F("ut", "iox_user_trigger_has_triggered", "UserTrigger::hasTriggered$", (), "val")
P.group("ni", [B + "c_notification_info.cpp"], opaque=OPQ)
F("ni", "iox_notification_info_get_notification_id", "NotificationInfo::getNotificationId$", (), "val")
F("ni", "iox_notification_info_call", r"NotificationInfo::operator\(\)$")
for w, t in (("subscriber", "cpp2c_Subscriber"), ("client", "UntypedClient"), ("server", "UntypedServer"), ("service_discovery", "ServiceDiscovery"), ("user_trigger", "UserTrigger")):
    F("ni", "iox_notification_info_does_originate_from_" + w, "NotificationInfo::doesOriginateFrom$", (1,), "val")
    F("ni", "iox_notification_info_get_%s_origin" % w, ("NotificationInfo::getOrigin$", t), (), "val")
for g, h in (("req", "request"), ("rsp", "response")):
    P.group(g, [B + "c_%s_header.cpp" % h], opaque=OPQ)
    H = "(%sHeader|RpcBaseHeader)::" % h.capitalize()
    for c in ("", "_const"):
        F(g, "iox_%s_header_from_payload%s" % (h, c), H + "fromPayload$", (0,), "val", None)
        F(g, "iox_%s_header_get_rpc_header_version%s" % (h, c), H + "getRpcHeaderVersion$", (), "val")
        F(g, "iox_%s_header_get_sequence_id%s" % (h, c), H + "getSequenceId$", (), "val")
        F(g, "iox_%s_header_get_user_payload%s" % (h, c), H + "getUserPayload$", (), "val")
        F(g, "iox_%s_header_get_chunk_header%s" % (h, c), H + "getChunkHeader$", (), "val")
F("req", "iox_request_header_set_sequence_id", "RequestHeader::setSequenceId$", (1,))
F("rsp", "iox_response_header_set_server_error", "ResponseHeader::setServerError$")
F("rsp", "iox_response_header_has_server_error", "ResponseHeader::hasServerError$", (), "val")
F("rsp", "iox_response_header_has_server_error_const", "ResponseHeader::hasServerError$", (), "val")
P.group("chunk", [B + "c_chunk.cpp"], opaque=OPQ)
for c in ("", "_const"):
    F("chunk", "iox_chunk_header_to_user_payload" + c, "ChunkHeader::userPayload$", (), "val")
    F("chunk", "iox_chunk_header_to_user_header" + c, "ChunkHeader::userHeader$", (), "val")
    F("chunk", "iox_chunk_header_from_user_payload" + c, "ChunkHeader::fromUserPayload$", (0,), "val", None)

for g, n in (("client", "client"), ("server", "server"), ("pub", "pub"), ("sub", "sub")):
    for o in ("options_init", "options_is_initialized", "init", "deinit"):
        P.root(g, "iox_%s_%s" % (n, o), "iox_%s_%s" % (n, o))
P.group("sd", [B + "c_service_discovery.cpp"], opaque=OPQ)
for g, n in (("ws", "ws"), ("lis", "listener"), ("ut", "user_trigger"), ("sd", "service_discovery")):
    for o in ("init", "deinit"):
        P.root(g, "iox_%s_%s" % (n, o), "iox_%s_%s" % (n, o))
P.root("ws", "iox_ws_wait", "iox_ws_wait")
P.root("ws", "iox_ws_timed_wait", "iox_ws_timed_wait")
for o in ("", "_apply_callable", "_apply_callable_with_context_data"):
    P.root("sd", "find" + o, "iox_service_discovery_find_service" + o)
P.root("sd", "found", "iox::function_ref::function_ref::'lambda'::__invoke")
P.group("csub", [B + "cpp2c_subscriber.cpp"], opaque=OPQ[:5])
for n in ("enableEvent", "disableEvent", "enableState", "disableState", "invalidateTrigger", "hasSamples", "~cpp2c_Subscriber"):
    P.root("csub", "csub_" + n, "cpp2c_Subscriber::" + n)
P.group("cpub", [B + "cpp2c_publisher.cpp"], opaque=OPQ[:5])
P.root("cpub", "cpub_dtor", "cpp2c_Publisher::~cpp2c_Publisher")
P.group("tr", [B + "cpp2c_service_description_translation.cpp"], opaque=[r"^iox::capro::", r"^iox::string::(?!capacity)"])
P.root("tr", "translate", "TranslateServiceDescription")
P.group("rt", [B + "c_runtime.cpp"], opaque=[r"^iox::runtime::(?!.*lambda)", r"^iox::string::(?!capacity)"])
P.root("rt", "iox_runtime_init", "iox_runtime_init")
P.root("rt", "iox_runtime_get_instance_name", "iox_runtime_get_instance_name")
P.root("rt", "iox_runtime_shutdown", "iox_runtime_shutdown")

P.group("drv", [DRV], containers=False)
FIELDS = {"ClientOptions": ("responseQueueCapacity", "nodeName", "connectOnCreate", "responseQueueFullPolicy", "serverTooSlowPolicy"),
          "ServerOptions": ("requestQueueCapacity", "nodeName", "offerOnCreate", "requestQueueFullPolicy", "clientTooSlowPolicy"),
          "PublisherOptions": ("historyCapacity", "nodeName", "offerOnCreate", "subscriberTooSlowPolicy"),
          "SubscriberOptions": ("queueCapacity", "historyRequest", "nodeName", "subscribeOnCreate", "queueFullPolicy", "requiresPublisherHistorySupport")}
for t, l in FIELDS.items():
    for n in l:
        P.root("drv", "off_%s_%s" % (t, n), "vd::off_%s_%s" % (t, n))
for n in ("off_callback", "off_context", "size_serviceString", "size_clientNodeName", "size_serverNodeName", "cap_idstring", "align", "nosize", "noalign"):
    P.root("drv", n, "vd::" + n)


def const(cx, rid):
    f = cx.fn(rid)
    v = f.strip(next(r for r in f.ins() if r.op == "ret").ops[0])
    return v.v if isinstance(v, Val) else None


@P.rule("R1", "each function stands for its operation on its handle, with its operands, and passes on the outcome", min=300)
def r1(cx):
    cbo, cto = const(cx, "off_callback"), const(cx, "off_context")
    for name, (op, args, ret, this, out) in sorted(SPEC.items()):
        f = cx.fn(name)
        cls = None
        if isinstance(op, tuple):
            op, cls = op
        OP = call(op)
        cs = matching(f, OP)
        req_some(cx, f, cs, "it performs the operation it stands for", name + "/op")
        if not cs:
            continue
        OK = exp_ok(OP, True)
        ev = {"op": OP}
        if out:
            ev["out"] = lambda i, f=f, n=out[0]: i.op == "store" and f.path(i.ops[1]) == "arg%d" % n
        gone = lambda k, pol: True if pol and k[0] == "eq" and isinstance(k[2], Val) and k[2].v not in (0, 1) and isinstance(k[1], Ins) and k[1].op == "load" and any(f.root_of(k[1].ops[0]) is f.root_of(c.ops[0]) for c in cs if c.ops) else None
        rows = [r for r in table(f, ev, {"ok": OK, "gone": gone}) if not (ret and ret[0] == "exp" and r.lit.get("gone"))]  # a result is a value or an error
        check_rows(cx, f, rows, lambda r: r.n("op") == 1, "the operation is performed once", name + "/once")
        cx.ob(not f.indirect(), f, "nothing else is called", name + "/else")
        for c in f.calls():
            n = (c.callee or "").split("::")
            if not OP(c) and len(n) > 2 and n[:2] in (["iox", "popo"], ["iox", "runtime"]) and n[-1].lstrip("~") != n[-2] and not re.match(r"(get|is)[A-Z]|from\w*Payload$|userPayload$|operator|m_", n[-1]):
                cx.ob(False, f, "no other operation is performed than the one it stands for", name + "/other", c)
        for c in cs:
            ops = list(c.ops)
            if ret and ret[0] == "exp" or len(ops) == len(args) + (2 if this else 1) and c.ty == "void" and isinstance(f.root_of(ops[0]), Ins) and not (this and is_this(f, ops[0], this)):
                ops = ops[1:]
            if this and (ops or not name.endswith("_capacity")):
                cx.ob(bool(ops) and is_this(f, ops[0], this), f, "on the object the handle refers to", name + "/this", c)
                ops = ops[1:]
            cx.ob(len(ops) >= len(args) and len(ops) - len(args) <= 0, f, "with the operands of the operation", name + "/n", c)
            for k, (a, v) in enumerate(zip(args, ops)):
                cx.ob(is_arg(cx, f, a, v, c, cbo, cto), f, "operand %d is what the caller passed" % (k + 1), name + "/arg%d" % k, c)
            if cls:
                cx.ob(cls in (c.full or ""), f, "of the type asked for", name + "/type", c)
        if ret is None:
            continue
        for r in rows:
            v = res(f, r.ret.ops[0], r.st) if r.ret.ops else None
            if ret == "val":
                ok = any(reaches(f, v, c) for c in cs)
            elif ret[0] == "tr":
                ok = isinstance(v, Ins) and v.op == "call" and re.search("^%s$" % ret[1], v.callee or "") is not None and any(reaches(f, v.ops[0], c) for c in cs)
            elif ret[0] == "desc":
                continue
            else:
                if r.lit.get("ok") is None:
                    ok = False
                elif r.lit["ok"]:
                    ok = isinstance(v, Val) and v.v == cx.enum(ret[2])[ret[3]] and (not out or r.n("out") == 1)
                else:
                    ok = isinstance(v, Ins) and v.op == "call" and re.search("^cpp2c::%s$" % ret[1], v.callee or "") is not None and any(carried(f, v.ops[0], c) for c in cs) and (not out or r.n("out") == 0)
            if not ok:
                cx.ob(False, f, "the outcome is the one of the operation (success %s)" % r.lit.get("ok"), name + "/ret", r.ret, r.trail)
                break
        else:
            cx.ob(bool(rows), f, "the outcome is the one of the operation", name + "/ret")
        if out:
            for i in matching(f, ev["out"]):
                v = f.strip(i.ops[0])
                if out[1]:
                    ok = isinstance(v, Ins) and v.op == "call" and re.search(out[1] + "$", v.callee or "") is not None and any(carried(f, v.ops[0], c) for c in cs)
                else:
                    ok = any(carried(f, v, c) for c in cs)
                cx.ob(ok, f, "what is handed out is the result", name + "/out", i)
        if ret[0] == "desc":
            t = [c for c in f.calls() if re.search(r"^TranslateServiceDescription", c.callee or "")]
            cx.ob(len(t) == 1 and f.path(t[0].ops[0]) == "arg0" and any(reaches(f, t[0].ops[1], c) or (c.ops and f.root_of(c.ops[0]) is f.root_of(t[0].ops[1])) for c in cs), f, "the description returned is the one of the object", name + "/desc", t[0] if t else None)


def reaches(f, v, c):
    v = f.strip(v)
    return v is c


def carried(f, v, c):
    """v is read from the result object the call filled"""
    v = f.strip(v)
    for _ in range(4):
        if isinstance(v, Ins) and v.op == "load":
            r = f.root_of(v.ops[0])
            if isinstance(r, Ins) and r is f.root_of(c.ops[0]) and r.op == "alloca":
                return True
        break
    return False


def handle(f):
    """the argument holding the handle: the first one, behind the place for a returned structure"""
    return "arg1" if any(re.search(r"^TranslateServiceDescription", c.callee or "") and f.path(c.ops[0]) == "arg0" for c in f.calls()) else "arg0"


def is_this(f, v, this):
    h = handle(f)
    if this == "self":
        return f.path(v) == h
    return is_port(f, v, h)


def is_port(f, v, h="arg0"):
    r = f.root_of(v)
    if not (isinstance(r, Ins) and r.op == "alloca"):
        return False
    l = [c for c in f.writers(r) if c.op == "call" and re.search(r"PortUser::(Publisher|Subscriber)PortUser$", c.callee or "")]
    return bool(l) and all(f.path(c.ops[1]) == "*%s.m_portData" % h for c in l)


def at(f, v):
    return Sim(f, {}).loc(v, {})


def latest(f, obj, off, c):
    """values last written to obj+off before c is reached; None among them: nothing written on some path"""
    l = [i for i in f.stores() if at(f, i.ops[1]) == (obj, off)]
    others = lambda s: lambda i: i is not s and i in l
    out = [f.strip(i.ops[0]) for i in l if f.search(i, lambda k: k is c, others(None)) is not None]
    if f.search(None, lambda k: k is c, others(None)) is not None:
        out.append(None)
    return out


def is_arg(cx, f, a, v, c, cbo, cto):
    if isinstance(a, int):
        return f.path(v) == "arg%d" % a
    o = f.strip(v)
    if isinstance(a, K):
        return isinstance(o, Val) and o.v == const(cx, a.v)
    if isinstance(a, Hdr):
        return isinstance(o, Ins) and o.op == "call" and re.search(a.cls + "$", o.callee or "") is not None and f.path(o.ops[0]) == "arg%d" % a.n
    if isinstance(a, To):
        l = [o]
        if isinstance(o, Ins) and o.op == "alloca":
            l = latest(f, at(f, o)[0], 0, c)
        return bool(l) and all(isinstance(x, Ins) and x.op == "call" and x.callee == "c2cpp::" + a.fn and f.path(x.ops[0]) == "arg%d" % a.n for x in l)
    if isinstance(a, Cb):
        p = at(f, v)
        if p is None:
            return False
        src = [k for k in f.calls() if MEMCPY.search(k.callee or "") and at(f, k.ops[0]) == p]
        if src:
            p = at(f, src[0].ops[1])
        for off, n in ((cbo, a.fn), (cto, a.ctx)):
            l = latest(f, p[0], p[1] + off, c)
            if not l or not all(x is not None and (isnull(x) if n is None else f.path(x) == "arg%d" % n) for x in l):
                return False
        return True
    return False


CPP2C = {"subscribeState": ("iox::SubscribeState", "iox_SubscribeState"), "chunkReceiveResult": ("iox::popo::ChunkReceiveResult", "iox_ChunkReceiveResult"),
         "allocationResult": ("iox::popo::AllocationError", "iox_AllocationResult"), "clientSendResult": ("iox::popo::ClientSendError", "iox_ClientSendResult"),
         "serverSendResult": ("iox::popo::ServerSendError", "iox_ServerSendResult"), "waitSetResult": ("iox::popo::WaitSetError", "iox_WaitSetResult"),
         "listenerResult": ("iox::popo::ListenerError", "iox_ListenerResult"), "consumerTooSlowPolicy": ("iox::popo::ConsumerTooSlowPolicy", "iox_ConsumerTooSlowPolicy"),
         "queueFullPolicy": ("iox::popo::QueueFullPolicy", "iox_QueueFullPolicy"), "connectionState": ("iox::ConnectionState", "iox_ConnectionState"),
         "serverRequestResult": ("iox::popo::ServerRequestResult", "iox_ServerRequestResult")}
C2CPP = {"consumerTooSlowPolicy": CPP2C["consumerTooSlowPolicy"], "queueFullPolicy": CPP2C["queueFullPolicy"], "subscriberEvent": ("iox::popo::SubscriberEvent", "iox_SubscriberEvent"),
         "subscriberState": ("iox::popo::SubscriberState", "iox_SubscriberState"), "clientEvent": ("iox::popo::ClientEvent", "iox_ClientEvent"),
         "clientState": ("iox::popo::ClientState", "iox_ClientState"), "serverEvent": ("iox::popo::ServerEvent", "iox_ServerEvent"),
         "serverState": ("iox::popo::ServerState", "iox_ServerState"), "serviceDiscoveryEvent": ("iox::runtime::ServiceDiscoveryEvent", "iox_ServiceDiscoveryEvent"),
         "messagingPattern": ("iox::popo::MessagingPattern", "iox_MessagingPattern")}
P.group("to_c", [B + "cpp2c_enum_translation.cpp"])
P.group("to_cpp", [B + "c2cpp_enum_translation.cpp"])
for n in CPP2C:
    P.root("to_c", "to_c_" + n, "cpp2c::" + n)
for n in C2CPP:
    P.root("to_cpp", "to_cpp_" + n, "c2cpp::" + n)


@P.rule("R2", "every enumerator is translated to the one of the same name", min=50)
def r2(cx):
    for d, tab, frm, to in (("to_c_", CPP2C, 0, 1), ("to_cpp_", C2CPP, 1, 0)):
        for n, es in sorted(tab.items()):
            f = cx.fn(d + n)
            plain = lambda t: {re.sub(r"^[A-Za-z]+_(?=[A-Z])", "", k) if t.startswith("iox_") else k: v for k, v in cx.enum(t).items()}
            src, dst = plain(es[frm]), plain(es[to])
            for k, v in sorted(src.items()):
                if frm == 1 and k not in dst:
                    continue
                sim = Sim(f, {}, args={0: "v"})
                rows = sim.run({"v": v})
                want = dst.get(k)
                got = [sim.val(r.ret.ops[0], r.st) for r in rows]
                got = [g.v if isinstance(g, Val) else g for g in got]
                cx.ob(want is not None and bool(got) and all(g == want for g in got), f, "%s stands for %s" % (k, k), "%s%s/%s" % (d, n, k), rows[0].ret if rows else None)


KINDS = {"client": ("ClientOptions", "UntypedClient"), "server": ("ServerOptions", "UntypedServer"), "pub": ("PublisherOptions", "cpp2c_Publisher"), "sub": ("SubscriberOptions", "cpp2c_Subscriber")}
TRANS = {"responseQueueFullPolicy": "queueFullPolicy", "requestQueueFullPolicy": "queueFullPolicy", "queueFullPolicy": "queueFullPolicy",
         "serverTooSlowPolicy": "consumerTooSlowPolicy", "clientTooSlowPolicy": "consumerTooSlowPolicy", "subscriberTooSlowPolicy": "consumerTooSlowPolicy"}
CNAME = {"requiresPublisherHistorySupport": "requirePublisherHistorySupport"}
DFLT = r"::(Client|Server|Publisher|Subscriber)Options$"
CPY = re.compile(r"^(strncpy|strncat|strcpy|memcpy|llvm\.memcpy.*|snprintf)$")


def is_val(f, v, path, tr):
    v = f.strip(v)
    if tr:
        return isinstance(v, Ins) and v.op == "call" and v.callee == tr and is_val(f, v.ops[0], path, None)
    while isinstance(v, Ins) and v.op in ("zext", "trunc", "icmp", "and"):
        if v.op == "icmp" and not (v.pred == "ne" and isinstance(v.ops[1], Val) and v.ops[1].v == 0):
            return False
        v = f.strip(v.ops[0])
    return isinstance(v, Ins) and v.op == "load" and path(v.ops[0])


@P.rule("R3", "options keep their meaning in both directions and an object is made from exactly what the caller passed", min=90)
def r3(cx):
    for k, (opt, cls) in sorted(KINDS.items()):
        fld = {n: const(cx, "off_%s_%s" % (opt, n)) for n in FIELDS[opt]}
        cx.ob(len(set(fld.values())) == len(fld), cx.fn("off_%s_nodeName" % opt), "fields are told apart", k + "/fields")
        # --- options_init
        f = cx.fn("iox_%s_options_init" % k)
        loc = Sim(f, {}).loc
        mk = [c for c in matching(f, call(DFLT)) if opt in (c.callee or "")]
        req_some(cx, f, mk, "defaults are the ones of the C++ API", k + "/defaults")
        objs = {loc(c.ops[0], {})[0] for c in mk if loc(c.ops[0], {})}
        given = nonnull(v_arg(0))
        magic = set()
        for n, off in sorted(fld.items()):
            c = CNAME.get(n, n)
            put = lambda i, c=c: (i.op == "store" and f.path(i.ops[1]) == "arg0." + c) or (i.op == "call" and CPY.search(i.callee or "") is not None and f.path(i.ops[0]).startswith("arg0." + c))
            l = matching(f, put)
            check_rows(cx, f, table(f, {"put": put}, {"given": given}), lambda r: r.lit.get("given") is False or r.n("put") >= 1, "%s gets a default" % c, "%s/init/%s" % (k, c))
            for i in l:
                if n == "nodeName":
                    if i.op == "store":
                        ok = isnull(i.ops[0])
                    else:
                        s = f.strip(i.ops[1])
                        lim = const(cx, "size_%sNodeName" % k)
                        m = f.strip(i.ops[2]) if len(i.ops) > 2 else None
                        ok = isinstance(s, Ins) and s.op == "call" and re.search(r"::c_str$", s.callee or "") is not None and any(loc(s.ops[0], {}) == (o, off) for o in objs) and isinstance(m, Val) and m.v <= lim
                else:
                    ok = is_val(f, i.ops[0], lambda p: any(loc(p, {}) == (o, off) for o in objs), "cpp2c::" + TRANS[n] if n in TRANS else None) or (c != n and isinstance(f.strip(i.ops[0]), Val) and f.strip(i.ops[0]).v == 0)
                cx.ob(ok, f, "the default of %s is the one of the C++ API" % c, "%s/init/%s/val" % (k, c), i)
        mput = lambda i: i.op == "store" and f.path(i.ops[1]) == "arg0.initCheck"
        check_rows(cx, f, table(f, {"put": mput}, {"given": given}), lambda r: r.lit.get("given") is False or r.n("put") >= 1, "initialized options are marked", "%s/init/mark" % k)
        for i in matching(f, mput):
            v = f.strip(i.ops[0])
            magic.add(v.v if isinstance(v, Val) else None)
        # --- is_initialized
        g = cx.fn("iox_%s_options_is_initialized" % k)
        isok = lambda m: equals(v_path(r"^\*arg\d\.initCheck$"), v_const(*m))
        rows = bool_rows(g, {}, {"marked": isok(magic), "given": nonnull(v_arg(0))})
        check_rows(cx, g, rows, lambda r: r.lit.get("given") is False and r.lit["ret"] is False or returns_iff(r, "marked"), "options are initialized iff they carry the mark", "%s/marked" % k)
        # --- init
        f = cx.fn("iox_%s_init" % k)
        loc = Sim(f, {}).loc
        NEW = call(r"^operator new$")
        req_some(cx, f, matching(f, NEW), "an object is made", k + "/new")
        mk = [c for c in matching(f, call(DFLT)) if opt in (c.callee or "")]
        objs = {loc(c.ops[0], {})[0] for c in mk if loc(c.ops[0], {})}
        uses = lambda i: i.op == "call" and not CPY.search(i.callee or "") and not re.search(r"Options$|string::", i.callee or "") and any(loc(a, {}) in [(o, 0) for o in objs] for a in i.ops if isinstance(a, Ins))
        mkobj = lambda i: uses(i) and (re.search(r"::Untyped\w+$", i.callee or "") is not None or not i.callee or re.search(r"::getMiddleware\w+$", i.callee or "") is not None)
        made = matching(f, mkobj)
        req_some(cx, f, made, "the options are the ones the object is made with", k + "/uses")
        GV = nonnull(v_arg(4))
        events = {"made": mkobj}
        for n, off in sorted(fld.items()):
            c = CNAME.get(n, n)
            if n == "nodeName":
                put = lambda i, off=off: i.op == "call" and re.search(r"string::(operator=|assign|unsafe_assign)$", i.callee or "") is not None and any(loc(i.ops[0], {}) == (o, off) for o in objs)
            else:
                put = lambda i, off=off: i.op == "store" and any(loc(i.ops[1], {}) == (o, off) for o in objs)
            events[n] = put
            for i in matching(f, put):
                if n == "nodeName":
                    s = f.root_of(i.ops[1])
                    w = [x for x in f.writers(s) if x.op == "call" and re.search(r"string::string$", x.callee or "")] if isinstance(s, Ins) else []
                    want = "arg4.nodeName" if k in ("client", "server") else "*arg4.nodeName"
                    ok = (bool(w) and all(f.path(x.ops[1]) == want for x in w)) or f.path(i.ops[1]) == want
                else:
                    ok = is_val(f, i.ops[0], lambda p, c=c: f.path(p) == "arg4." + c, "c2cpp::" + TRANS[n] if n in TRANS else None)
                cx.ob(ok, f, "%s is what the caller chose" % c, "%s/%s/val" % (k, c), i)
                w = f.search(i, lambda x: x in made)
                cx.ob(w is not None, f, "%s is chosen before the object is made" % c, "%s/%s/before" % (k, c), i)
        rows = table(f, events, {"given": GV, "self": nonnull(v_arg(0)), "named": nonnull(v_path(r"^\*arg4\.nodeName$")), "marked": isok(magic)}, cap=1)
        for n in fld:
            check_rows(cx, f, rows, lambda r: r.n("made") == 0 or (r.n(n) == 1) == (r.lit.get("given") is True and (n != "nodeName" or r.lit.get("named") is not False)) and r.lit.get("given") is not None, "%s is passed on iff options are given" % n, "%s/%s" % (k, n))
        check_rows(cx, f, rows, lambda r: r.n("made") == 0 or r.lit.get("given") is False or r.lit.get("marked") is True, "options are used only when initialized", k + "/checked")
        check_rows(cx, f, rows, lambda r: (r.n("made") == 1) == (r.lit.get("self") is not False), "one object is made", k + "/one")
        for c in made:
            sd = [loc(a, {}) for a in c.ops]
            ctor = [x for x in f.calls() if re.search(r"::ServiceDescription$", x.callee or "") and loc(x.ops[0], {}) in sd]
            cx.ob(len(ctor) == 1 and len(ctor[0].ops) >= 4, f, "it is made for a service", k + "/service", c)
            for x in ctor:
                for n in (1, 2, 3):
                    s = f.root_of(x.ops[n])
                    w = [y for y in f.writers(s) if y.op == "call" and re.search(r"string::string$", y.callee or "")] if isinstance(s, Ins) else []
                    cx.ob(bool(w) and all(f.path(y.ops[1]) == "arg%d" % n for y in w), f, "the service is the one the caller names", "%s/service%d" % (k, n), x)
            # the object made is the one handed out
        kept = lambda i: i.op == "store" and f.path(i.ops[1]).startswith("arg0.do_not_touch_me")
        new = matching(f, NEW)
        obj = lambda v: f.root_of(v) in new
        if k in ("pub", "sub"):
            st = [i for i in f.stores() if f.path(i.ops[1]).endswith(".m_portData") and obj(i.ops[1])]
            cx.ob(bool(st) and all(f.strip(i.ops[0]) in made for i in st), f, "the object refers to the port made for it", k + "/port", st[0] if st else None)
            for i in made:
                req_after(cx, f, i, lambda x: x in st, "the port made is kept", k + "/portkept")
        else:
            cx.ob(all(obj(c.ops[0]) for c in made), f, "the object is made in its own memory", k + "/placed", made[0] if made else None)
        handed(cx, f, k, obj, kept)


def handed(cx, f, k, obj, kept):
    rows = table(f, {"kept": kept}, {"self": nonnull(v_arg(0))})
    ptrs = set()
    for i in matching(f, kept):
        v = f.strip(i.ops[0])
        ptrs.add(f.path(v))
        cx.ob(obj(v), f, "the storage refers to the object", k + "/storage", i)
    for r in rows:
        v = res(f, r.ret.ops[0], r.st)
        ok = isnull(v) if r.lit.get("self") is False else (obj(v) and r.n("kept") == 1 and (not ptrs or f.path(v) in ptrs))
        cx.ob(ok, f, "the handle returned is the object made", k + "/handle", r.ret, r.trail)


@P.rule("R4", "an object given back ends exactly once, and its port is handed over once and not touched afterwards", min=30)
def r4(cx):
    DEL = call(r"^operator delete$")
    for k in ("client", "server", "pub", "sub", "ws", "listener", "user_trigger", "service_discovery"):
        f = cx.fn("iox_%s_deinit" % k)
        own = lambda v: at(f, v) == ("arg0", 0)
        virt = lambda i: i.op == "call" and not i.callee and i.ops and own(i.ops[0]) and f.path(i.ind).startswith("**arg0")
        dele = lambda i: DEL(i)
        end = anyof(virt, dele)
        check_rows(cx, f, table(f, {"end": end}, {"self": nonnull(v_arg(0))}), lambda r: r.n("end") == (0 if r.lit.get("self") is False else 1), "the object is released once", k + "/released") if k != "sub" else \
            check_rows(cx, f, table(f, {"end": end}, {"none": lambda q, pol: pol if q[0] == "eq" and isnull(q[2]) else None}), lambda r: r.n("end") == (0 if r.lit.get("none") else 1), "the object is released once", k + "/released")
        for i in matching(f, end):
            if virt(i):
                continue
            dt = lambda x: x.op == "call" and re.search(r"::~\w+$", x.callee or "") is not None
            if k == "sub":
                ini = cx.fn("iox_sub_init")
                h = [s for s in ini.stores() if ini.path(s.ops[1]).startswith("arg0.do_not_touch_me")]
                d = {at(ini, s.ops[0])[1] for s in h if at(ini, s.ops[0])}
                a = f.affine(i.ops[0])
                cx.ob(len(d) == 1 and a == {("arg", 0): 1, 1: (-list(d)[0]) % (1 << 64)}, f, "the memory released is the one allocated", k + "/mem", i)
                mine = lambda x: dt(x) and f.path(x.ops[0]).endswith(".subscriber")
            else:
                cx.ob(own(i.ops[0]), f, "the memory released is the one of the object", k + "/mem", i)
                mine = lambda x: dt(x) and own(x.ops[0])
            req_before(cx, f, i, mine, "the object ends before its memory is released", k + "/dtor")
            for x in matching(f, mine):
                req_never_after(cx, f, x, mine, "it ends once", k + "/once")
        port = lambda i: (f.ptr(i) is not None and i.op in ("store", "load", "atomicrmw", "cmpxchg") and f.path(f.ptr(i)).startswith("*arg0.m_portData")) or (i.op == "call" and re.search(r"PortUser::", i.callee or "") is not None)
        flag = lambda i: i.op in ("store", "atomicrmw", "cmpxchg") and f.path(f.ptr(i)).startswith("*arg0.m_portData.m_toBeDestroyed")
        if k in ("pub", "sub"):
            hand = anyof(flag, lambda i: i.op == "call" and re.search(r"cpp2c_\w+::~", i.callee or "") is not None)
            for i in matching(f, hand):
                req_never_after(cx, f, i, anyof(port, hand), "a port handed over for destruction is not touched again", k + "/after")
            req_some(cx, f, matching(f, hand), "the port is handed over", k + "/hand")
    for rid in ("cpub_dtor", "csub_~cpp2c_Subscriber"):
        f = cx.fn(rid)
        D = lambda i: i.op == "call" and re.search(r"::destroy$", i.callee or "") is not None and is_port(f, i.ops[0])
        rows = table(f, {"destroy": D}, {"has": nonnull(v_path(r"^\*arg0\.m_portData$"))})
        check_rows(cx, f, rows, lambda r: r.n("destroy") == (1 if r.lit.get("has") is True else 0) and r.lit.get("has") is not None, "the port, if any, is handed over once", rid + "/once")
        for i in matching(f, D):
            touch = lambda x: x.op == "call" and (re.search(r"TriggerHandle::(~TriggerHandle|reset|operator=)$", x.callee or "") is not None and not settled(f, x) or re.search(r"PortUser::(?!~)|BasePort::(?!~)", x.callee or "") is not None)
            req_never_after(cx, f, i, touch, "a port handed over for destruction is not touched again (an attachment ends before)", rid + "/after")


def settled(f, x):
    """the attachment was already ended on every path to x"""
    e = lambda i: i.op == "call" and re.search(r"TriggerHandle::(reset|invalidate)$", i.callee or "") is not None and f.path(i.ops[0]) == f.path(x.ops[0]) and i is not x
    return bool(matching(f, e)) and f.search(None, lambda k: k is x, e) is None


@P.rule("R5", "results handed out in arrays fit, are complete, and what does not fit is counted", min=15)
def r5(cx):
    for n, cap, arr, miss in (("iox_ws_wait", 2, 1, 3), ("iox_ws_timed_wait", None, None, None)):
        f = cx.fn(n)
        if cap is None:
            m = [i for i in f.stores() if re.search(r"^arg\d$", f.path(i.ops[1])) and i.d.get("vty") == "i64"]
            miss = int(f.path(m[0].ops[1])[3:]) if m else 0
            cap, arr = miss - 1, miss - 2
        W = call(r"WaitSet::(wait|timedWait)$")
        cs = matching(f, W)
        req_some(cx, f, cs, "it waits", n + "/wait")
        vec = f.root_of(cs[0].ops[0]) if cs else None
        SIZE = lambda v: isinstance(v, Ins) and v.op == "call" and re.search(r"vector::size$", v.callee or "") is not None and f.root_of(v.ops[0]) is vec
        more = lt(SIZE, v_arg(cap))
        sm = lambda i: i.op == "store" and f.path(i.ops[1]) == "arg%d" % miss
        rows = table(f, {"missed": sm, "wait": W}, {"more": more})
        check_rows(cx, f, rows, lambda r: r.n("wait") == 1 and r.n("missed") >= 1 and r.lit.get("more") is not None, "it waits once and tells how much was missed", n + "/once")
        for r in rows:
            v = res(f, r.ret.ops[0], r.st)
            cx.ob(f.path(v) == "arg%d" % cap if r.lit.get("more") else SIZE(f.strip(v)), f, "the number returned is the smaller of what there is and what fits", n + "/count", r.ret, r.trail)
        for i in matching(f, sm):
            v = f.strip(i.ops[0])
            if isinstance(v, Val):
                ok = v.v == 0 and f.search_edge(holds(more), lambda k: k is i) is None
            else:
                a = f.affine(v)
                ok = a.get(("arg", cap)) == (1 << 64) - 1 and len(a) == 2 and any(SIZE(x) for x in f.ins() if ("v", x.id) in a) and f.unguarded(i, holds(more)) is None
            cx.ob(ok, f, "what is missed is what does not fit", n + "/missed", i)
        put = [i for i in f.ins() if (i.op == "store" or i.op == "call" and MEMCPY.search(i.callee or "")) and f.path(i.ops[1] if i.op == "store" else i.ops[0]) in ("arg%d[]" % arr,)]
        req_some(cx, f, put, "notifications are handed out", n + "/put")
        for i in put:
            p = i.ops[1] if i.op == "store" else i.ops[0]
            ix = index_of(f, p)
            lim = [b for b, add in loop_limits(f, i, ix) if add == 0] if isinstance(ix, Ins) else []
            rets = {f.strip(r.ops[0]) for r in f.ins() if r.op == "ret"}
            ok = isinstance(ix, Ins) and ix.op == "phi" and any(v_const(0)(f.strip(x)) for x in ix.ops) and any(f.affine(x) == {("v", ix.id): 1, 1: 1} for x in ix.ops) and any(f.strip(b) in rets for b in lim)
            cx.ob(ok, f, "exactly the places counted are filled", n + "/fill", i)
            s = f.strip(i.ops[0])
            e = f.strip(s.ops[0]) if isinstance(s, Ins) and s.op == "load" else None
            cx.ob(isinstance(e, Ins) and e.op == "call" and re.search(r"vector::(operator\[\]|at)$", e.callee or "") is not None and f.root_of(e.ops[0]) is vec and f.strip(e.ops[1]) is f.strip(ix), f, "each place gets the notification of its position", n + "/which", i)
    # --- discovery
    for n, o in (("find", 7), ("find_apply_callable", 5), ("find_apply_callable_with_context_data", 6)):
        f = cx.fn(n)
        FIND = call(r"ServiceDiscovery::findService$")
        cs = matching(f, FIND)
        check_rows(cx, f, table(f, {"find": FIND}), lambda r: r.n("find") == 1, "one search", n + "/once")
        loc = Sim(f, {}).loc
        for c in cs:
            cx.ob(f.path(c.ops[0]) == "arg0", f, "by the object of the handle", n + "/this", c)
            v = f.strip(c.ops[5])
            cx.ob(isinstance(v, Ins) and v.op == "call" and v.callee == "c2cpp::messagingPattern" and f.path(v.ops[0]) == "arg%d" % o, f, "for the pattern asked for", n + "/pattern", c)
            for a in (1, 2, 3):
                r = f.root_of(c.ops[a])
                ctor = [x for x in f.writers(r) if x.op == "call" and re.search(r"string::string$", x.callee or "")] if isinstance(r, Ins) else []
                cx.ob(bool(ctor) and all(f.path(x.ops[1]) == "arg%d" % a for x in ctor), f, "the filter is the string given", "%s/filter%d" % (n, a), c)
                has = [i for i in f.stores() if f.root_of(i.ops[1]) is r and i.d.get("vty") == "i8" and loc(i.ops[1], {}) == loc(r, {})]
                on = lambda i: i in has and v_const(1)(f.strip(i.ops[0]))
                off = lambda i: i in has and v_const(0)(f.strip(i.ops[0])) and f.search(i, lambda k: k is c) is not None
                rows = table(f, {"on": on}, {"given": nonnull(v_arg(a))})
                check_rows(cx, f, rows, lambda q: (q.n("on") == 1) == (q.lit.get("given") is True) and q.lit.get("given") is not None, "no string means no filter", "%s/given%d" % (n, a))
    f = cx.fn("find")
    cs = matching(f, call(r"ServiceDiscovery::findService$"))
    kept = lambda v: isinstance(v, Ins) and v.op == "load" and f.path(v.ops[0]).startswith("$") and [f.path(x.ops[0]) for x in f.stores() if f.path(x.ops[1]) == f.path(v.ops[0])] == ["arg6"]
    zero = lambda i: i.op == "store" and (f.path(i.ops[1]) == "arg6" or kept(f.strip(i.ops[1]))) and v_const(0)(f.strip(i.ops[0]))
    for c in cs:
        req_before(cx, f, c, zero, "what is missed is counted from zero", "find/missed0")
    for r in f.ins():
        if r.op == "ret":
            l = f.strip(r.ops[0])
            ok = isinstance(l, Ins) and l.op == "load"
            if ok:
                o = f.root_of(l.ops[0])
                z = [i for i in f.stores() if f.root_of(i.ops[1]) is o]
                ok = bool(z) and all(v_const(0)(f.strip(i.ops[0])) and all(f.search(i, lambda k: k is c) is not None for c in cs) for i in z)
            cx.ob(ok, f, "the number returned is the number of services stored, from zero", "find/count", r)
    for f in cx.fns("found"):
        T = call(r"^TranslateServiceDescription")
        for i in matching(f, T):
            cx.ob(f.path(i.ops[1]) == "arg1", f, "the service told is the one found", "found/which", i)
        if "_apply_callable" in f.full:
            rows = table(f, {"call": lambda i: i.op == "call" and not i.callee})
            check_rows(cx, f, rows, lambda r: r.n("call") == 1, "the callable is applied once per service", "found/apply")
            for i in f.indirect():
                cx.ob(any(f.root_of(t.ops[0]) is f.root_of(i.ops[0]) for t in matching(f, T)), f, "to the service found", "found/arg", i)
            continue
        fld = {}
        main = cx.fn("find")
        ml = Sim(main, {}).loc
        for s in main.stores():
            a = ml(s.ops[1], {})
            v = main.strip(s.ops[0])
            if a and isinstance(v, Ins) and v.op == "alloca" and "anon" in main.path(s.ops[1]):
                w = [main.path(x.ops[0]) for x in main.stores() if main.root_of(x.ops[1]) is v]
                fld[a[1]] = "cur" if w == ["0"] else w[0] if len(w) == 1 else None
        inv = {v: k for k, v in fld.items()}
        cx.ob(all(x in inv for x in ("cur", "arg4", "arg5", "arg6")), f, "the search knows the array, its capacity and the counters", "found/captured")
        if not all(x in inv for x in ("cur", "arg4", "arg5", "arg6")):
            continue
        pth = lambda x: "*arg0+%d" % inv[x] if inv[x] else "*arg0"
        cur = lambda v: isinstance(v, Ins) and v.op == "load" and f.path(v) == "*" + pth("cur")
        room = lambda k, pol: pol if k[0] == "ult" and cur(k[1]) and f.path(k[2]) == "*" + pth("arg5") else None
        inc = lambda x, d: lambda i: i.op == "store" and f.path(i.ops[1]) == d and f.affine(i.ops[0]).get(1) == 1
        icur, imiss = inc("cur", pth("cur")), inc("arg6", "*" + pth("arg6"))
        put = lambda i: i.op == "call" and (MEMCPY.search(i.callee or "") is not None or T(i)) and f.path(i.ops[0]) == "*%s[]" % pth("arg4")
        rows = table(f, {"cur": icur, "missed": imiss, "put": put}, {"room": room})
        check_rows(cx, f, rows, lambda r: r.lit.get("room") is not None and (r.n("cur"), r.n("missed"), r.n("put")) == ((1, 0, 1) if r.lit["room"] else (0, 1, 0)), "a service is stored while there is room and counted otherwise", "found/store")
        for i in matching(f, put):
            cx.ob(cur(f.strip(index_of(f, i.ops[0]))), f, "it is stored at the next free place", "found/place", i)
            l = f.strip(index_of(f, i.ops[0]))
            cx.ob(all(f.search(x, lambda k: k is l) is None for x in matching(f, icur)), f, "the place is the one before it is counted", "found/order", i)


def lt(big, small):
    """condition: big > small"""
    def p(k, pol):
        if k[0] == "ult":
            if small(k[1]) and big(k[2]):
                return pol
            if small(k[2]) and big(k[1]):
                return not pol
        return None
    return p


@P.rule("R6", "strings given to C programs are terminated within their buffers", min=8)
def r6(cx):
    f = cx.fn("translate")
    size = const(cx, "size_serviceString")
    cap = const(cx, "cap_idstring")
    where = lambda v: Sim(f, {}).loc(v, {}) or (None, None)
    made = {"arg0"}
    for i in f.calls():  # the result may be made in a local that is copied as a whole
        if MEMCPY.search(i.callee or "") and f.path(i.ops[0]) == "arg0" and isinstance(i.ops[2], Val) and i.ops[2].v >= 3 * size and where(i.ops[1])[1] == 0:
            made.add(where(i.ops[1])[0])
            for k in f.calls():
                if CPY.search(k.callee or "") and where(k.ops[0])[0] == where(i.ops[1])[0]:
                    req_after(cx, f, k, lambda x: x is i, "what is copied reaches the result", "translate/result")
    zeroed = lambda o: lambda i: (i.op == "call" and re.search(r"memset", i.callee or "") is not None and where(i.ops[0])[0] in made and where(i.ops[0])[1] == 0 and isinstance(i.ops[2], Val) and i.ops[2].v >= 3 * size and v_const(0)(f.strip(i.ops[1]))) or \
        (i.op == "store" and v_const(0)(f.strip(i.ops[0])) and where(i.ops[1])[0] in made and where(i.ops[1])[1] in (o + cap, o + size - 1))
    for n, g, o in (("serviceString", "getServiceIDString", 0), ("instanceString", "getInstanceIDString", size), ("eventString", "getEventIDString", 2 * size)):
        put = lambda i: i.op == "call" and CPY.search(i.callee or "") is not None and where(i.ops[0])[0] in made and where(i.ops[0])[1] == o and where(i.ops[1])[0] not in made
        check_rows(cx, f, table(f, {"put": put}), lambda r: r.n("put") == 1, "%s is copied" % n, "translate/%s" % n)
        for i in matching(f, put):
            s = f.strip(i.ops[1] if i.callee != "snprintf" else i.ops[-1])
            src = f.strip(s.ops[0]) if isinstance(s, Ins) and s.op == "call" and re.search(r"::c_str$", s.callee or "") else None
            cx.ob(isinstance(src, Ins) and src.op == "call" and re.search("::%s$" % g, src.callee or "") is not None and f.path(src.ops[0]) == "arg1", f, "%s is the string of the service" % n, "translate/%s/which" % n, i)
            l = f.strip(i.ops[2] if i.callee != "snprintf" else i.ops[1]) if len(i.ops) > 2 else None
            m = re.search(r"string<(\d+)\w*>::capacity", l.full or "") if isinstance(l, Ins) and l.op == "call" else None
            l = Val("c", int(m.group(1))) if m else l
            if i.callee == "strcpy":
                okn, term = True, True
            elif isinstance(l, Val) and i.callee in ("strncpy", "snprintf"):
                okn, term = l.v <= size, l.v > cap or i.callee == "snprintf"
                okn = okn and l.v >= cap
            else:
                d = f.affine(l) if l is not None else {}
                okn = len(d) == 2 and d.get(1) == 1 and any(("v", x.id) in d and re.search(r"string::size$", x.callee or "") for x in f.calls())
                term = okn
            cx.ob(okn, f, "%s fits and is not cut" % n, "translate/%s/fits" % n, i)
            if not term:
                w1 = f.search(None, is_ret, zeroed(o))
                cx.ob(w1 is None, f, "%s is terminated when the id has its full length" % n, "translate/%s/end" % n, i)
            else:
                cx.ob(True, f, "%s is terminated" % n, "translate/%s/end" % n, i)
    cx.ob(size is not None and cap is not None and size > cap, f, "a full id fits", "translate/size")
    f = cx.fn("iox_runtime_get_instance_name")
    put = lambda i: i.op == "call" and CPY.search(i.callee or "") is not None and f.path(i.ops[0]) == "arg0"
    end = lambda i: i.op == "store" and f.path(i.ops[1]) == "arg0[]" and v_const(0)(f.strip(i.ops[0])) and f.affine(index_of(f, i.ops[1])) == {("arg", 1): 1, 1: (1 << 64) - 1}
    room = lambda k, pol: (not pol) if k[0] == "eq" and f.path(k[1]) == "arg1" and v_const(0)(k[2]) else pol if k[0] == "ult" and f.path(k[2]) == "arg1" and v_const(0)(k[1]) else None
    rows = table(f, {"put": put, "end": end}, {"there": nonnull(v_arg(0)), "room": room})
    check_rows(cx, f, rows, lambda r: (r.n("put") == 0 and r.n("end") == 0) or (r.lit.get("there") is True and r.lit.get("room") is True and r.before("put", "end")), "a name is written only where there is room, and terminated", "name/end")
    check_rows(cx, f, rows, lambda r: r.n("put") == 1 or r.lit.get("there") is False or r.lit.get("room") is False, "a name is written where there is room", "name/put")
    for i in matching(f, put):
        s = f.strip(i.ops[1])
        cx.ob(f.path(i.ops[2]) == "arg1" and isinstance(s, Ins) and s.op == "call" and re.search(r"c_str$", s.callee or "") is not None, f, "it is the name of the runtime, within the buffer", "name/which", i)
    f = cx.fn("iox_runtime_init")
    INIT = call(r"PoshRuntime::initRuntime$")
    req_some(cx, f, matching(f, INIT), "the runtime is initialized", "init")
    for i in matching(f, INIT):
        r = f.root_of(i.ops[0])
        w = [x for x in f.writers(r) if x.op == "call" and re.search(r"string::string$", x.callee or "")] if isinstance(r, Ins) else []
        cx.ob(bool(w) and all(f.path(x.ops[1]) == "arg0" for x in w), f, "with the name given", "init/name", i)
    f = cx.fn("iox_runtime_shutdown")
    check_rows(cx, f, table(f, {"s": lambda i: i.op == "call" and (re.search(r"PoshRuntime::shutdown$", i.callee or "") is not None)}), lambda r: r.n("s") == 1, "the runtime is shut down", "shutdown")


@P.rule("R7", "a C subscriber's attachment tells its port whom to notify and is undone completely", min=7)
def r7(cx):
    for e in ("Event", "State"):
        f = cx.fn("csub_enable" + e)
        mv = lambda i: i.op == "call" and re.search(r"TriggerHandle::operator=$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0.m_trigger" and f.path(i.ops[1]) == "arg1"
        st = lambda i: i.op == "call" and re.search(r"::setConditionVariable$", i.callee or "") is not None and is_port(f, i.ops[0])
        sel = lambda k, pol: pol if k[0] == "eq" and f.path(k[1]) == "arg2" and v_const(0)(k[2]) else None
        check_rows(cx, f, table(f, {"mv": mv, "set": st}, {"sel": sel}), lambda r: r.lit.get("sel") is False and not r.ev or r.before("mv", "set") and r.n("mv") == 1 and r.n("set") == 1, "the handle is kept, then the port told whom to notify", "enable" + e)
        for i in matching(f, st):
            a, b = f.strip(i.ops[1]), f.strip(i.ops[2])
            ok = all(isinstance(x, Ins) and x.op == "call" and re.search("TriggerHandle::%s$" % n, x.callee or "") is not None and f.path(x.ops[0]) == "arg0.m_trigger" and f.search(x, mv) is None for x, n in ((a, "getConditionVariableData"), (b, "getUniqueId")))
            cx.ob(ok, f, "the notifier of the handle kept", "enable%s/who" % e, i)
        f = cx.fn("csub_disable" + e)
        rs = lambda i: i.op == "call" and re.search(r"TriggerHandle::reset$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0.m_trigger"
        un = lambda i: i.op == "call" and re.search(r"::unsetConditionVariable$", i.callee or "") is not None and is_port(f, i.ops[0])
        sel1 = lambda k, pol: pol if k[0] == "eq" and f.path(k[1]) == "arg1" and v_const(0)(k[2]) else None
        check_rows(cx, f, table(f, {"reset": rs, "unset": un}, {"sel": sel1}), lambda r: r.lit.get("sel") is False and not r.ev or r.n("reset") == 1 and r.n("unset") == 1, "handle and port forget each other", "disable" + e)
    f = cx.fn("csub_invalidateTrigger")
    un = lambda i: i.op == "call" and re.search(r"::unsetConditionVariable$", i.callee or "") is not None and is_port(f, i.ops[0])
    iv = lambda i: i.op == "call" and re.search(r"TriggerHandle::invalidate$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0.m_trigger"
    ID = lambda v: isinstance(v, Ins) and v.op == "call" and re.search(r"TriggerHandle::getUniqueId$", v.callee or "") is not None and f.path(v.ops[0]) == "arg0.m_trigger"
    check_rows(cx, f, table(f, {"unset": un, "inv": iv}, {"mine": equals(ID, v_arg(1))}), lambda r: r.lit.get("mine") is not None and r.n("unset") == r.n("inv") == (1 if r.lit["mine"] else 0), "an attachment is invalidated iff it is the one meant", "invalidate")
    f = cx.fn("csub_hasSamples")
    H = lambda i: i.op == "call" and re.search(r"::hasNewChunks$", i.callee or "") is not None and is_port(f, i.ops[0])
    rets = [r for r in f.ins() if r.op == "ret"]
    cx.ob(bool(rets) and all(f.strip(r.ops[0]) in matching(f, H) for r in rets), f, "there is data iff the port has chunks", "hasSamples", rets[0] if rets else None)


@P.rule("R8", "a valid handle, storage or option is served, and none is used when it is null", min=150)
def r8(cx):
    for rid in sorted({r["id"] for g in P.groups.values() for r in g.roots}):
        if not rid.startswith("iox_") and not rid.startswith("find"):
            continue
        for f in cx.fns(rid):
            if re.match(r"iox_(client|server|pub|sub)_init$", rid):
                cx.ob(any(i.op == "icmp" and f.strip(i.ops[0]) == Val("arg", 4) and isnull(i.ops[1]) for i in f.ins()), f, "options may be left out", rid + "/optional")
                cx.ob(f.search(None, is_ret, None, either(holds(nonnull(v_arg(4))), holds(nonnull(v_arg(0)), False))) is not None, f, "left out options mean the defaults", rid + "/left_out")
            if re.match(r"iox_\w+_init$", rid) and not rid.endswith("options_init"):
                keep = lambda i: i.op == "store" and re.match(r"arg0(\.|$)", f.path(i.ops[1])) is not None
                for r in matching(f, is_ret):
                    if not r.ops:
                        continue
                    w = f.search(None, lambda i: i is r, keep, holds(nonnull(v_arg(0)), False))
                    cx.ob(w is None, f, "the storage refers to the object", rid + "/storage", r, w)
                for i in matching(f, keep):
                    v = f.root_of(i.ops[0])
                    cx.ob(isinstance(v, Ins) and v.op == "call" and re.search(r"operator new", v.callee or "") is not None, f, "the storage refers to the object made", rid + "/storage/which", i)
            for k in range(8):
                arg = Val("arg", k)
                if not any(i.op == "icmp" and f.strip(i.ops[0]) == arg and isnull(i.ops[1]) for i in f.ins()):
                    continue
                lit = nonnull(v_arg(k))
                cx.ob(f.search(None, is_ret, None, holds(lit, False)) is not None, f, "a valid argument %d is served" % k, "%s/serve%d" % (rid, k))
                use = lambda i: (i.op == "load" and f.root_of(i.ops[0]) == arg) or (i.op == "store" and f.root_of(i.ops[1]) == arg)
                w = f.search(None, use, None, holds(lit))
                cx.ob(w is None, f, "argument %d is not used when it is null" % k, "%s/null%d" % (rid, k), w[-1] if w else None, w)
