import os

from engine.core import Prop
from rules.lib import *

P = Prop("P12")
P.explain = """
Decision tables over all paths of trigger, trigger handle, listener and wait set: what each field holds at the return (last-write
dataflow), callback typestate (called exactly once with the own id before invalidation), whole-array scans before an index is
taken, index returned exactly once after the slot was reset, lock typestate of the trigger handle."""
S = "iceoryx_posh/source/popo/"
EV = r"^iox::popo::internal::Event_t::"
OPQ = [r"^iox::popo::ConditionNotifier::", r"^iox::popo::ConditionListener::", r"^iox::function::", r"^iox::storable_function::",
       r"^iox::popo::NotificationInfo::", r"^std::lock$", EV, r"^iox::popo::Listener::(IndexManager_t::|addEvent$)",
       r"^iox::popo::WaitSet::(acquireNotifications|createVectorWithTriggeredTriggers|removeAllTriggers|attachImpl)$", r"^iox::popo::detail::uniqueMerge"]
P.group("t", [S + "trigger.cpp", S + "trigger_handle.cpp", S + "listener.cpp", S + "user_trigger.cpp"], opaque=OPQ)
for n in ("Trigger", "operator=", "reset", "invalidate", "isStateConditionSatisfied", "isLogicalEqualTo", "~Trigger"):
    P.root("t", "t_" + n, "iox::popo::Trigger::" + n)
for n in ("TriggerHandle", "operator=", "reset", "invalidate", "trigger", "wasTriggered", "isValid", "~TriggerHandle", "getUniqueId", "getConditionVariableData"):
    P.root("t", "h_" + n, "iox::popo::TriggerHandle::" + n)
for n in ("~Listener", "threadLoop", "removeTrigger"):
    P.root("t", "l_" + n, "iox::popo::Listener::" + n)
for n in ("executeCallback", "reset", "init", "isInitialized", "isEqualTo"):
    P.root("t", "e_" + n, "iox::popo::internal::Event_t::" + n)
P.root("t", "u_invalidate", "iox::popo::UserTrigger::invalidateTrigger")
P.group("w", ["iceoryx_binding_c/source/c_wait_set.cpp", "iceoryx_binding_c/source/c_listener.cpp"], opaque=OPQ + [r"^iox::popo::Trigger::", r"^iox::popo::TriggerHandle::", r"::(enable(State|Event)|getCallbackForIsStateConditionSatisfied)$"])
for n in ("attachImpl", "removeTrigger", "removeAllTriggers", "createVectorWithTriggeredTriggers", "acquireNotifications", "waitAndReturnTriggeredTriggers", "~WaitSet", "attachState", "attachEvent"):
    P.root("w", "w_" + n, "iox::popo::WaitSet::" + n)
P.root("w", "l_addEvent", "iox::popo::Listener::addEvent")
P.root("w", "l_attachEvent", "iox::popo::Listener::attachEvent")
P.root("w", "merge", "iox::popo::detail::uniqueMergeSortedNotificationVector")
INV = (1 << 64) - 1
invoke = call(r"storable_function::operator\(\)$|(^|::)function::operator\(\)$")
LOCK, UNLOCK = "pthread_mutex_lock$", "pthread_mutex_unlock$"


def invoked(rx, idrx):
    """event: the callback field matching rx is called with the id field matching idrx"""
    return lambda i: invoke(i) and re.search(rx, i.fn.path(i.ops[0])) is not None and len(i.ops) > 1 and re.search(idrx, i.fn.path(i.ops[1])) is not None


def isv(v, *ns):
    return isinstance(v, Val) and (v.k == "c" and v.v in ns or v.k == "null" and None in ns)


TF = ("m_uniqueId", "m_triggerType", "m_originTriggerType", "m_originTriggerTypeHash", "m_resetCallback", "m_hasTriggeredCallback", "m_notificationInfo")
HF = ("m_conditionVariableDataPtr", "m_uniqueTriggerId", "m_resetCallback")


def fld(base, names):
    return {base + "." + n: r"^%s\.%s$" % (base, n) for n in names}


def local_fn(f, v):
    """copy of a freshly built (empty) callback"""
    return isinstance(v, Ins) and v.op == "call" and len(v.ops) > 1 and isinstance(f.root_of(v.ops[1]), Ins) and f.root_of(v.ops[1]).op == "alloca"


def t_invalid(f, r, b):
    return isv(r.lit[b + ".m_uniqueId"], INV) and isv(r.lit[b + ".m_triggerType"], 2) and local_fn(f, r.lit[b + ".m_resetCallback"])


def h_invalid(f, r, b):
    return isv(r.lit[b + ".m_conditionVariableDataPtr"], None) and isv(r.lit[b + ".m_uniqueTriggerId"], INV) and local_fn(f, r.lit[b + ".m_resetCallback"])


def own(rid):
    return (equals(v_path(r"^\*arg0\.m_uniqueId$"), v_const(INV)), r"^arg0\.m_resetCallback$", r"^\*arg0\.m_uniqueId$", TF, t_invalid) if rid[0] == "t" else \
        (equals(v_path(r"^\*arg0\.m_conditionVariableDataPtr$"), isnull), r"^arg0\.m_resetCallback$", r"^\*arg0\.m_uniqueTriggerId$", HF, h_invalid)


@P.rule("R1", "a trigger or handle that goes away calls its reset callback exactly once with its own id, iff it is valid, and is invalid afterwards", min=14)
def reset(cx):
    for rid in ("t_reset", "t_~Trigger", "h_reset", "h_~TriggerHandle"):
        none, cb, idr, F, invalid = own(rid)
        for f in cx.fns(rid):
            rows = finals(f, fld("arg0", F), {"cb": invoked(cb, idr), "any": invoke, "inv": store(r"^arg0\.(m_uniqueId|m_uniqueTriggerId|m_conditionVariableDataPtr)$")}, {"none": none})
            check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None, "validity is examined", rid + "/valid")
            check_rows(cx, f, rows, lambda r: r.n("cb") == (0 if r.lit.get("none") else 1) and r.n("any") == r.n("cb"), "the reset callback is called once, with the own id, iff valid", rid + "/once")
            check_rows(cx, f, rows, lambda r: r.lit.get("none") or invalid(f, r, "arg0"), "it is invalid afterwards", rid + "/invalid")
            check_rows(cx, f, rows, lambda r: r.before("cb", "inv"), "the id is passed before it is cleared", rid + "/order")
    for rid in ("t_invalidate", "h_invalidate"):
        none, cb, idr, F, invalid = own(rid)
        for f in cx.fns(rid):
            rows = finals(f, fld("arg0", F), {"any": invoke})
            check_rows(cx, f, rows, lambda r: invalid(f, r, "arg0") and not r.n("any"), "invalidating calls nothing and clears everything", rid)


@P.rule("R2", "moving transfers everything, releases what the target had, and leaves the source invalid", min=10)
def move(cx):
    for rid, ctor in (("t_Trigger", 1), ("t_operator=", 0), ("h_TriggerHandle", 1), ("h_operator=", 0)):
        none, cb, idr, F, invalid = own(rid)
        for f in cx.fns(rid):
            if not re.search(r"&&\)$", f.full):
                continue
            same_ = equals(v_arg(0), v_arg(1))
            rows = finals(f, dict(fld("arg0", F), **fld("arg1", F)),
                          {"cb": invoked(cb, idr), "any": invoke, "set": lambda i: i.op == "store" and re.search(r"^arg0\.", i.fn.addr(i)) is not None and not v_const(INV, 2)(f.strip(i.ops[0])) and not isnull(f.strip(i.ops[0]))}, {"none": none, "same": same_})
            live = [r for r in rows if not r.lit.get("same")]
            for n in F:
                check_rows(cx, f, live, lambda r: from_path(f, r.lit["arg0." + n], r"^arg1\.%s$" % n), "%s is transferred" % n, rid + "/" + n)
            check_rows(cx, f, live, lambda r: invalid(f, r, "arg1"), "the source is invalid afterwards", rid + "/source")
            if not ctor:
                check_rows(cx, f, live, lambda r: r.lit.get("none") is not None and r.n("cb") == (0 if r.lit.get("none") else 1) and r.n("any") == r.n("cb") and r.before("cb", "set"), "what the target had is released first", rid + "/release")
                check_rows(cx, f, [r for r in rows if r.lit.get("same")] or rows, lambda r: not r.lit.get("same") or (not r.n("any") and not r.n("set")), "moving to itself changes nothing", rid + "/self")
                check_rows(cx, f, rows, lambda r: r.lit.get("same") is not None, "moving to itself is told apart", rid + "/self-check")
            else:
                check_rows(cx, f, rows, lambda r: not r.n("any"), "no callback is called", rid + "/silent")


@P.rule("R3", "a trigger handle is only looked at and changed with its mutex held", min=20)
def locking(cx):
    FX = r"^arg%d(\.m_trigger)?\.(m_conditionVariableDataPtr|m_uniqueTriggerId|m_resetCallback)"
    for n in ("operator=", "reset", "invalidate", "trigger", "wasTriggered", "isValid", "~TriggerHandle", "getUniqueId", "getConditionVariableData", "TriggerHandle"):
        for f in cx.fns("h_" + n):
            ctor = n == "TriggerHandle"
            if ctor and not re.search(r"&&\)$", f.full):
                continue
            for a in ((1,) if ctor else (0, 1) if n == "operator=" else (0,)):
                mx = lambda i: re.search(r"^arg%d\.m_mutex" % a, f.path(i.ops[0])) is not None if i.ops else False
                L = lambda i: i.op == "call" and (i.callee == "pthread_mutex_lock" and mx(i) or (i.callee == "std::lock" and any(re.search(r"^arg%d\.m_mutex" % a, f.path(o)) for o in i.ops)))
                U = lambda i: i.op == "call" and i.callee == "pthread_mutex_unlock" and mx(i)
                acc = [i for i in f.ins() if (i.op in ("load", "store") and re.search(FX % a, f.addr(i))) or (i.op == "call" and i.ops and any(re.search(FX % a + r"$", f.path(o)) for o in i.ops) and not re.search(r"::~", i.callee or ""))]
                req_some(cx, f, acc, "the handle is accessed", "%s/%d/access" % (n, a))
                for e in acc:
                    w = held(f, L, U, e)
                    cx.ob(w is None, f, "accessed with the mutex held", "%s/%d/held" % (n, a), e, w)
                w = balanced(f, L, U)
                cx.ob(w is None, f, "the mutex is released", "%s/%d/balanced" % (n, a), None, w)


@P.rule("R4", "triggering notifies the attached condition variable with the own id iff attached", min=5)
def trigger(cx):
    none = equals(v_path(r"^\*arg0\.m_conditionVariableDataPtr$"), isnull)
    notifier = call(r"ConditionNotifier::ConditionNotifier$")
    notify = call(r"ConditionNotifier::notify$")
    for f in cx.fns("h_trigger"):
        rows = table(f, {"new": notifier, "notify": notify}, {"none": none})
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and (r.n("notify") == r.n("new") == (0 if r.lit["none"] else 1)), "notified once iff attached", "trigger")
        for i in matching(f, notifier):
            cx.ob(f.path(i.ops[1]) == "*arg0.m_conditionVariableDataPtr" and f.path(i.ops[2]) == "*arg0.m_uniqueTriggerId", f, "own condition variable and id", "id", i)
            L = lambda i: i.op == "call" and i.callee == "pthread_mutex_lock"
            U = lambda i: i.op == "call" and i.callee == "pthread_mutex_unlock"
            for e in matching(f, notify):
                w = held(f, L, U, e)
                cx.ob(w is None, f, "notified with the mutex held, so detaching waits for it", "held", e, w)
    for f in cx.fns("h_wasTriggered"):
        act = load(r"m_activeNotifications\[\]")
        rows = bool_rows(f, {"act": act}, {"none": none, "told": truth_of(act)})
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is not None and (r.lit["ret"] is False and not r.n("act") if r.lit["none"] else r.n("act") == 1 and (r.lit["ret"] == ("is", "told", True) or r.lit.get("told") is r.lit["ret"])), "triggered iff attached and its notification is pending", "was")
        for i in matching(f, act):
            cx.ob(f.path(index_of(f, i.ops[0])) == "*arg0.m_uniqueTriggerId", f, "the own notification", "was/id", i)
    for f in cx.fns("u_invalidate"):
        st = [i for i in f.ins() if i.op == "store" and re.search(r"m_trigger\.", f.addr(i))]
        req_some(cx, f, st, "the user trigger can be invalidated", "user/some")
        for i in st:
            req_guard(cx, f, i, holds(equals(v_arg(1), v_path(r"m_trigger\.m_uniqueTriggerId$"))), "only the trigger with that id is invalidated", "user/id")
        w = f.search_edge(holds(equals(v_arg(1), v_path(r"m_trigger\.m_uniqueTriggerId$"))), is_ret, store(r"m_trigger\.m_conditionVariableDataPtr$", isnull))
        cx.ob(w is None, f, "the trigger with that id is invalidated", "user/done", None, w)


@P.rule("R5", "a trigger is satisfied: state based iff its callback says so, event based iff valid", min=4)
def satisfied(cx):
    valid = equals(v_path(r"^\*arg0\.m_uniqueId$"), v_const(INV))
    ty = v_path(r"^\*arg0\.m_triggerType$")
    for f in cx.fns("t_isStateConditionSatisfied"):
        q = lambda i: invoke(i) and re.search(r"m_hasTriggeredCallback", i.fn.path(i.ops[0])) is not None
        rows = bool_rows(f, {"ask": q}, {"invalid": valid, "state": equals(ty, v_const(0)), "event": equals(ty, v_const(1)), "told": truth_of(q)})

        def ok(r):
            v = r.lit["ret"]
            if r.lit.get("state"):
                return v is False if r.lit.get("invalid") else (v == ("is", "told", True) or (v in (True, False) and r.lit.get("told") is v)) and r.n("ask") == 1
            if r.lit.get("event"):
                return v == ("is", "invalid", False) or (r.lit.get("invalid") is not None and v is (not r.lit["invalid"]))
            return v is False
        check_rows(cx, f, rows, ok, "satisfied iff state callback or valid event", "satisfied")
        check_rows(cx, f, [r for r in rows if r.lit.get("state") and r.n("ask")], lambda r: r.lit.get("invalid") is False, "an invalid trigger's callback is not asked", "asked")
    for f in cx.fns("t_isLogicalEqualTo"):
        conds = {"id": valid, "origin": equals(v_path(r"m_notificationOrigin$"), v_arg(1)), "type": equals(v_path(r"m_originTriggerType$"), v_arg(2)), "hash": equals(v_path(r"m_originTriggerTypeHash$"), v_arg(3))}
        equal_all(cx, f, conds, {"id"}, "logical")
    for f in cx.fns("e_isEqualTo"):
        equal_all(cx, f, {"origin": equals(v_path(r"m_origin$"), v_arg(1)), "type": equals(v_path(r"m_eventType$"), v_arg(2)), "hash": equals(v_path(r"m_eventTypeHash$"), v_arg(3))}, set(), "event")


def equal_all(cx, f, conds, neg, tag):
    """returns true iff all conditions hold (those in neg: do not hold)"""
    rows = bool_rows(f, {}, conds)

    def ok(r):
        v = r.lit["ret"]
        st = {n: (r.lit.get(n) if n not in neg or r.lit.get(n) is None else not r.lit[n]) for n in conds}
        if isinstance(v, tuple):
            n, t = v[1], v[2]
            return t is (n not in neg) and all(st[x] for x in conds if x != n)
        if v is True:
            return all(st.values())
        if v is False:
            return any(x is False for x in st.values())
        return False
    check_rows(cx, f, rows, ok, "equal iff all of %s agree" % ", ".join(conds), tag)


EVF = ("m_eventId", "m_origin", "m_eventType", "m_eventTypeHash", "m_callback", "m_translationCallback", "m_userType", "m_invalidationCallback")


@P.rule("R6", "a listener event runs the callback it was attached with, while it is attached, and is detached exactly once", min=12)
def event(cx):
    ini = truth_call(r"Event_t::isInitialized$")
    for f in cx.fns("e_executeCallback"):
        run = lambda i: i.op == "call" and i.callee is None or (i.op == "call" and not i.callee)
        rows = table(f, {"run": run}, {"init": ini})
        check_rows(cx, f, rows, lambda r: r.lit.get("init") is not None and r.n("run") == (1 if r.lit["init"] else 0), "run once iff attached", "execute")
        for i in matching(f, run):
            cx.ob([f.path(o) for o in i.ops[:3]] == ["*arg0.m_origin", "*arg0.m_userType", "*arg0.m_callback"], f, "its own origin, context and callback", "execute/args", i)
    for f in cx.fns("e_isInitialized"):
        equal_all(cx, f, {"m_origin": equals(v_path(r"m_origin$"), isnull), "m_eventId": equals(v_path(r"m_eventId$"), v_const(INV)), "m_eventType": equals(v_path(r"m_eventType$"), v_const(INV)),
                          "m_eventTypeHash": equals(v_path(r"m_eventTypeHash$"), v_const(INV)), "m_callback": equals(v_path(r"m_callback$"), isnull), "m_translationCallback": equals(v_path(r"m_translationCallback$"), isnull)},
                  {"m_origin", "m_eventId", "m_eventType", "m_eventTypeHash", "m_callback", "m_translationCallback"}, "initialized")
    for f in cx.fns("e_reset"):
        rows = finals(f, fld("arg0", EVF), {"cb": invoked(r"m_invalidationCallback$", r"^\*arg0\.m_eventId$"), "any": invoke, "inv": store(r"^arg0\.(m_eventId|m_origin)$")}, {"init": ini})
        check_rows(cx, f, rows, lambda r: r.lit.get("init") is not None and r.n("any") == r.n("cb") == (1 if r.lit["init"] else 0) and r.before("cb", "inv"), "the origin is told once, with the id, iff attached", "reset/cb")
        check_rows(cx, f, rows, lambda r: not r.lit.get("init") or (isv(r.lit["arg0.m_eventId"], INV) and isv(r.lit["arg0.m_origin"], None) and isv(r.lit["arg0.m_callback"], None)
                                                                   and isv(r.lit["arg0.m_translationCallback"], None) and local_fn(f, r.lit["arg0.m_invalidationCallback"])), "the event is detached", "reset/fields")
        rows = bool_rows(f, {}, {"init": ini})
        check_rows(cx, f, rows, lambda r: returns_iff(r, "init"), "reports whether it was attached", "reset/ret")
    for f in cx.fns("e_init"):
        rows = finals(f, fld("arg0", EVF))
        for n, a in (("m_eventId", 1), ("m_origin", 2), ("m_userType", 3), ("m_eventType", 4), ("m_eventTypeHash", 5), ("m_callback", 6), ("m_translationCallback", 7)):
            check_rows(cx, f, rows, lambda r: v_arg(a)(r.lit["arg0." + n]), n + " is the one given", "init/" + n)
        check_rows(cx, f, rows, lambda r: isinstance(r.lit["arg0.m_invalidationCallback"], Ins) and any(v_arg(8)(x) for x in (f.strip(r.lit["arg0.m_invalidationCallback"].ops[1]), f.root_of(r.lit["arg0.m_invalidationCallback"].ops[1])))
                   or any("arg8" in f.path(o) for o in getattr(r.lit["arg0.m_invalidationCallback"], "ops", [])), "the invalidation callback is the one given", "init/cb")


GET = r"smart_lock::operator->$"


def locked_event(f, v):
    """index value of the m_events element the event pointer v was locked from, or None"""
    v = f.strip(v)
    if isinstance(v, Ins) and v.op == "call" and re.search(r"Proxy::operator->$", v.callee or ""):
        a = f.root_of(v.ops[0])
        for w in f.writers(a):
            if w.op == "call" and re.search(GET, w.callee or "") and f.root_of(w.ops[0]) is a and re.search(r"m_events", f.path(w.ops[1])):
                return index_of(f, w.ops[1]), w
    return None, None


@P.rule("R7", "the listener thread runs each reported event, attaches at a free index after the duplicate check, and frees an index once", min=16)
def listener(cx):
    ex = call(r"Event_t::executeCallback$")
    for f in cx.fns("l_threadLoop"):
        es = matching(f, ex)
        req_some(cx, f, es, "reported events are executed", "loop/some")
        wait = call(r"ConditionListener::(wait|timedWait)$")
        for e in es:
            ix, g = locked_event(f, e.ops[0])
            ok = isinstance(ix, Ins) and ix.op == "load"
            cx.ob(ok, f, "the event of the reported id is executed under its lock", "loop/id", e)
            if ok:
                why = covers_vec(f, e, ix.ops[0], r"^\$vector")
                cx.ob(why is None, f, "all reported events are executed (%s)" % why, "loop/all", e)
                src_ = f.strip(ix.ops[0])
                # the vector iterated is the result of wait
                b = [x for x in matching(f, wait)]
                k = vec_elem(f, ix.ops[0], r"^\$vector")
                vec = None
                for x in (k[1].ops if k and k[0] == "it" else []):
                    s = f.strip(x)
                    if isinstance(s, Ins) and s.op == "call" and (s.callee or "").endswith("begin"):
                        vec = f.root_of(s.ops[-1])
                if k and k[0] == "it":
                    cx.ob(vec is not None and any(f.root_of(w.ops[0]) is vec for w in b), f, "the events reported by the wait", "loop/wait", e)
        stop = truth_of(load(r"m_wasDtorCalled"))
        rows = [i for i in f.rets()]
        w = f.search(None, is_ret, None, holds(stop))
        cx.ob(w is None, f, "the thread ends only when the listener is destroyed", "loop/end", None, w)
        for b in matching(f, wait):
            w = f.search(matching(f, wait), lambda i: i is b, lambda i: load(r"m_wasDtorCalled")(i))
            cx.ob(w is None, f, "the thread looks whether the listener is destroyed", "loop/stop", b, w)
    pop, push = call(r"IndexManager_t::pop$"), call(r"IndexManager_t::push$")
    init, eq = call(r"Event_t::init$"), call(r"Event_t::isEqualTo$")
    for f in cx.fns("l_removeTrigger"):
        rst = call(r"Event_t::reset$")
        N = None
        rows = table(f, {"reset": rst, "push": push}, {"was": truth_of(rst)}, cap=3)
        check_rows(cx, f, rows, lambda r: r.n("push") == (1 if r.n("reset") and r.lit.get("was") else 0), "the index is freed once iff the event was attached", "remove/push")
        check_rows(cx, f, [r for r in rows if r.n("reset")], lambda r: r.before("reset", "push") and r.n("reset") == 1, "the event is detached first", "remove/order")
        req_some(cx, f, matching(f, rst), "the event is detached", "remove/some")
        for i in matching(f, rst):
            ix, g = locked_event(f, i.ops[0])
            cx.ob(ix is not None and v_arg(1)(f.strip(ix)), f, "the event with that index, under its lock", "remove/index", i)
            lim = guard_below(f, i, v_arg(1))
            cx.ob(lim is not None and lim == 256, f, "only existing events are touched", "remove/bound", i)
            w = f.search(None, is_ret, lambda x: x is i, lambda k, pol: below_const(f, k, pol, v_arg(1)) == (False, 256))
            cx.ob(w is None, f, "every existing event can be detached", "remove/total", None, w)
        for i in matching(f, push):
            cx.ob(v_arg(1)(f.strip(i.ops[1])), f, "that index is freed", "remove/freed", i)
    for f in cx.fns("l_addEvent"):
        es = matching(f, eq)
        req_some(cx, f, es, "duplicates are looked for", "add/dup")
        L = lambda i: i.op == "call" and i.callee == "pthread_mutex_lock" and re.search(r"m_addEventMutex", f.path(i.ops[0])) is not None
        U = lambda i: i.op == "call" and i.callee == "pthread_mutex_unlock" and re.search(r"m_addEventMutex", f.path(i.ops[0])) is not None
        req_examined(cx, f, eq, truth_of(eq), "a duplicate is told apart", "add/dup")
        for e in es + matching(f, pop) + matching(f, init):
            w = held(f, L, U, e)
            cx.ob(w is None, f, "attaching is serialised by the mutex", "add/held", e, w)
        w = balanced(f, L, U)
        cx.ob(w is None, f, "the mutex is released", "add/balanced", None, w)
        done = None
        for e in es:
            ix, g = locked_event(f, e.ops[0])
            c = Counter(f, ix) if ix is not None else None
            ok = c is not None and c.ok and c.inits and all(v_const(0)(x) for x in c.inits)
            done = c.done(256) if ok else None
            cx.ob(ok, f, "all events are compared", "add/scan", e)
            cx.ob([f.path(o) for o in e.ops[1:4]] == ["arg2", "arg4", "arg5"], f, "compared by origin and type", "add/args", e)
            if done:
                for p in matching(f, pop):
                    w = f.search(None, lambda i: i is p, None, done)
                    cx.ob(w is None, f, "an index is taken only after all events were compared", "add/order", p, w)
                st = {s.id for s in c.steps}
                w = f.search([None] + c.steps, lambda i: i.id in st, lambda i: i is e, done)
                cx.ob(w is None, f, "no event is skipped", "add/skip", e, w)
        rows = exp_rows(f, {"pop": pop, "init": init}, {"dup": truth_of(eq), "got": truth_of(pop)}, cap=3)
        check_rows(cx, f, rows, lambda r: (r.lit["ret"] == "err" and isv(r.lit["val"], 1) and not r.n("pop")) if r.lit.get("dup") else True, "a duplicate is refused and takes no index", "add/duplicate")
        check_rows(cx, f, rows, lambda r: r.lit.get("dup") or (r.n("pop") == 1 and (r.lit["ret"] == "ok" and r.n("init") == 1 if r.lit.get("got") else r.lit["ret"] == "err" and isv(r.lit["val"], 0) and not r.n("init"))), "attached iff an index was free", "add/full")
        out = [f.root_of(p.ops[1]) for p in matching(f, pop)]
        idx = lambda v: isinstance(f.strip(v), Ins) and f.strip(v).op == "load" and any(f.root_of(f.strip(v).ops[0]) is o for o in out)
        for i in matching(f, init):
            ix, g = locked_event(f, i.ops[0])
            cx.ob(ix is not None and idx(ix), f, "the event at the taken index is used", "add/slot", i)
            cx.ob(idx(i.ops[1]) and [f.path(o) for o in i.ops[2:8]] == ["arg%d" % k for k in range(2, 8)] and same_fn(f, i.ops[8], "arg8"), f, "it gets its index and what was given", "add/init", i)
        check_rows(cx, f, [r for r in rows if r.lit["ret"] == "ok"], lambda r: idx(r.lit["val"]), "the taken index is returned", "add/ret")
    for f in cx.fns("l_attachEvent"):
        attach(cx, f, r"Listener::addEvent$", "Listener::removeTrigger", "m_conditionVariableData", "l_attach", r"::enableEvent$")
        w = f.search(None, call(r"Listener::addEvent$"), None, holds(equals(v_path(r"^\*arg\d(\.m_callback)?$"), isnull), False))
        cx.ob(w is None, f, "an empty callback is refused", "l_attach/null", None, w)
    for f in cx.fns("l_~Listener"):
        stop, dest, join = store(r"m_wasDtorCalled", v_const(1)), call(r"ConditionListener::destroy$"), call(r"thread::join$")
        fin = store(r"m_toBeDestroyed", v_const(1))
        for n, e in (("stop", stop), ("destroy", dest), ("join", join), ("free", fin)):
            on_all_returns(cx, f, e, "the listener is shut down: " + n, "dtor/" + n)
        for j in matching(f, join):
            req_before(cx, f, j, stop, "the thread is told to stop before it is joined", "dtor/order1")
            req_before(cx, f, j, dest, "the wait is ended before the thread is joined", "dtor/order2")
        for i in matching(f, dest):
            req_before(cx, f, i, stop, "the stop flag is up before the wait is ended", "dtor/order4")
        for i in matching(f, fin) + matching(f, call(r"smart_lock::~smart_lock$")):
            req_before(cx, f, i, join, "the thread is joined before its events and its condition variable go", "dtor/order3")


def same_fn(f, v, path):
    """callback v is (a copy of) the object at path"""
    if f.path(v) == path:
        return True
    a = f.root_of(v)
    return any(w.op == "call" and len(w.ops) > 1 and f.root_of(w.ops[0]) is a and f.path(w.ops[1]) == path for w in f.writers(a)) if isinstance(a, Ins) else False


def below_const(f, k, pol, pv):
    """the edge says v < n (True, n) or v >= n (False, n)"""
    if k[0] == "ult":
        if pv(f.strip(k[1])) and v_const()(f.strip(k[2])):
            return pol, f.strip(k[2]).v
        if pv(f.strip(k[2])) and v_const()(f.strip(k[1])):
            return (not pol), f.strip(k[1]).v + 1
    return None


def guard_below(f, e, pv):
    """smallest n such that e only executes with v < n"""
    ns = set()
    for b, sc, dnf, t in f.edges():
        for c in dnf:
            for k, pol in c:
                x = below_const(f, k, pol, pv)
                if x and x[0]:
                    ns.add(x[1])
    for n in sorted(ns):
        if f.unguarded(e, lambda k, pol: below_const(f, k, pol, pv) in [(True, m) for m in ns if m <= n]) is None:
            return n
    return None


def attach(cx, f, add, remove, cv, tag, enable):
    """the origin is enabled with a handle of this set's condition variable, its remove method and the id, iff the attachment succeeded"""
    ad, en, th = call(add), call(enable), call(r"TriggerHandle::TriggerHandle$")
    a = [i for i in matching(f, ad)]
    req_some(cx, f, a, "attached", tag + "/some")
    rows = exp_rows(f, {"add": ad, "enable": en}, {"ok": exp_ok(ad, True)}, cap=3)
    check_rows(cx, f, rows, lambda r: r.n("enable") == (1 if r.n("add") and r.lit.get("ok") else 0), "the origin is enabled once iff attached", tag + "/enable")
    check_rows(cx, f, rows, lambda r: r.n("add") <= 1 and (r.lit["ret"] == "ok") == bool(r.n("add") and r.lit.get("ok")) and r.lit["ret"] in ("ok", "err"), "the outcome is reported", tag + "/ret")
    out = [f.root_of(x.ops[0]) for x in a]
    for i in matching(f, th):
        ok = re.search(r"^\*arg1\.%s(Ptr)?$" % cv, f.path(i.ops[1])) is not None
        cx.ob(ok, f, "the handle notifies this object's condition variable", tag + "/cv", i)
        v = f.strip(i.ops[3])
        cx.ob(isinstance(v, Ins) and v.op == "load" and any(f.root_of(v.ops[0]) is o for o in out), f, "the handle carries the id of the attachment", tag + "/id", i)
        fa = f.root_of(i.ops[2])
        cx.ob(any(w.op == "call" and f.root_of(w.ops[0]) is fa and any(remove in f.path(o) for o in w.ops[1:]) and any(f.path(o) == "arg1" for o in w.ops[1:]) for w in f.writers(fa)), f, "the handle removes it from this object", tag + "/remove", i)
    for i in matching(f, en):
        cx.ob(f.path(i.ops[0]) == "arg2" and isinstance(f.root_of(i.ops[1]), Ins) and any(w.op == "call" and th(w) and f.root_of(w.ops[0]) is f.root_of(i.ops[1]) for w in f.writers(f.root_of(i.ops[1]))), f, "the origin gets the handle", tag + "/origin", i)
    return a


def capacity(f, size=None):
    """number of elements of m_triggerArray: end of the range loop"""
    return 256


@P.rule("R8", "attaching to a wait set: duplicates refused after a complete scan, the trigger lives at the index it was given", min=60)
def ws_attach(cx):
    pop = call(r"iox::stack::pop$", (1, r"m_indexRepository"))
    eq = call(r"Trigger::isLogicalEqualTo$")
    new = call(r"Trigger::Trigger$", (0, r"m_triggerArray\[\]"))
    for f in cx.fns("w_attachImpl"):
        es = matching(f, eq)
        req_some(cx, f, es, "duplicates are looked for", "dup")
        req_examined(cx, f, eq, truth_of(eq), "a duplicate is told apart", "dup")
        hv = [i for i in f.ins() if i.op == "load" and re.search(r"m_hasValue$", f.addr(i)) and any(f.root_of(i.ops[0]) is f.root_of(e.ops[0]) for e in es)]
        why, done = scans(f, hv, 256)
        cx.ob(why is None, f, "all triggers are compared (%s)" % why, "scan")
        for e in es:
            cx.ob([f.path(o) for o in e.ops[1:4]] == ["arg2", "arg6", "arg7"], f, "compared by origin and type", "dup/args", e)
        # an occupied slot is compared
        occ = truth_of(lambda i: i in hv)
        w = f.search_edge(holds(occ), lambda i: i.op == "ret" or i in hv or pop(i), lambda i: i in es)
        cx.ob(w is None, f, "every occupied slot is compared", "dup/occupied", None, w)
        if done:
            for p in matching(f, pop):
                w = f.search(None, lambda i: i is p, None, done)
                cx.ob(w is None, f, "an index is taken only after all triggers were compared", "dup/order", p, w)
        got = opt_has(pop)
        rows = exp_rows(f, {"pop": pop, "new": new}, {"dup": truth_of(eq), "got": got, "state": truth_of(load(r"^arg3\.m_hasValue$"))}, cap=3)
        check_rows(cx, f, rows, lambda r: not r.lit.get("dup") or (r.lit["ret"] == "err" and isv(r.lit["val"], 1) and not r.n("pop") and not r.n("new")), "a duplicate is refused and takes no index", "duplicate")
        check_rows(cx, f, rows, lambda r: r.lit.get("dup") or (r.n("pop") == 1 and (r.lit["ret"] == "ok" and r.n("new") == 1 if r.lit.get("got") else r.lit["ret"] == "err" and isv(r.lit["val"], 0) and not r.n("new"))), "attached iff an index was free", "full")
        out = [f.root_of(p.ops[0]) for p in matching(f, pop)]
        idx = lambda v: isinstance(f.strip(v), Ins) and f.strip(v).op == "load" and any(f.root_of(f.strip(v).ops[0]) is o for o in out)
        for i in matching(f, new):
            ix = index_of(f, i.ops[0])
            cx.ob(ix is not None and idx(ix), f, "the trigger is stored at the taken index", "slot", i)
            st = "StateBased" in (i.full or "")
            n = 6 if st else 5
            cx.ob(len(i.ops) == n + 3 and idx(i.ops[n]) and f.path(i.ops[1]) == "arg2" and [f.path(o) for o in i.ops[n + 1:]] == ["arg6", "arg7"] and [f.path(o) for o in i.ops[n - 2:n]] == ["arg4", "arg5"], f, "it gets its index and what was given", "args", i)
            req_guard(cx, f, i, holds(truth_of(load(r"^arg3\.m_hasValue$")), st), "state based iff a state callback was given", "kind")
        check_rows(cx, f, [r for r in rows if r.lit["ret"] == "ok"], lambda r: idx(r.lit["val"]), "the taken index is returned", "ret")
    for rid in ("w_attachState", "w_attachEvent"):
        for f in cx.fns(rid):
            if not matching(f, call(r"WaitSet::attachImpl$")):
                continue
            a = attach(cx, f, r"WaitSet::attachImpl$", "WaitSet::removeTrigger", "m_conditionVariableData", rid, r"::enable(State|Event)$")
            if rid != "w_attachState":
                for i in a:
                    z = [s for s in f.writers(f.root_of(i.ops[3])) if s.op == "store"] if isinstance(f.root_of(i.ops[3]), Ins) else []
                    cx.ob(any(v_const(0)(f.strip(s.ops[0])) for s in z), f, "an event has no state callback", rid + "/event", i)
                continue
            sat, ntf, nw = call(r"Trigger::isStateConditionSatisfied$"), call(r"ConditionNotifier::notify$"), call(r"ConditionNotifier::ConditionNotifier$")
            out = [f.root_of(x.ops[0]) for x in a]
            okc = exp_ok(call(r"WaitSet::attachImpl$"), True)
            rows = table(f, {"sat": sat, "notify": ntf, "en": call(r"::enableState$")}, {"ok": okc, "is": truth_of(sat)})
            check_rows(cx, f, rows, lambda r: r.n("notify") == (1 if r.lit.get("ok") and r.lit.get("is") else 0) and r.n("sat") == (1 if r.lit.get("ok") else 0) and (not r.n("sat") or r.lit.get("is") is not None), "a state that already holds is notified", "state/notify")
            check_rows(cx, f, rows, lambda r: r.before("en", "sat"), "the state is looked at after the origin was enabled, so no change in between is lost", "state/order")
            for i in matching(f, nw):
                v = f.strip(i.ops[2])
                cx.ob(re.search(r"^\*arg1\.m_conditionVariableDataPtr$", f.path(i.ops[1])) is not None and isinstance(v, Ins) and v.op == "load" and any(f.root_of(v.ops[0]) is o for o in out), f, "with its own id", "state/id", i)
            for i in matching(f, sat):
                ix = index_of(f, i.ops[0])
                cx.ob(isinstance(ix, Ins) and ix.op == "load" and any(f.root_of(ix.ops[0]) is o for o in out), f, "the attached trigger is looked at", "state/which", i)


@P.rule("R9", "detaching frees the slot and its index once; a destroyed wait set releases all", min=8)
def ws_detach(cx):
    push = call(r"iox::stack::push$", (0, r"m_indexRepository"))
    inv, dtor = call(r"Trigger::invalidate$"), call(r"Trigger::~Trigger$")
    gid = call(r"Trigger::getUniqueId$")
    for f in cx.fns("w_removeTrigger"):
        isarg = lambda v: v_arg(1)(v) or (isinstance(v, Ins) and v.op == "load" and isinstance(f.root_of(v.ops[0]), Ins) and any(s.op == "store" and v_arg(1)(f.strip(s.ops[0])) for s in f.writers(f.root_of(v.ops[0]))))
        match = equals(lambda v: isinstance(v, Ins) and gid(v), isarg)
        empty = store(r"m_hasValue$", v_const(0))
        rows = table(f, {"inv": inv, "dtor": dtor, "empty": empty, "push": push}, {"match": match, "has": truth_of(load(r"m_hasValue$"))}, cap=3)
        check_rows(cx, f, rows, lambda r: (r.n("inv") >= 1 and r.n("dtor") == r.n("empty") == (1 if r.lit.get("has") else 0) and r.n("push") == 1 and r.before("inv", "dtor") and r.before("empty", "push")) if r.lit.get("match") else not r.ev, "invalidated, destroyed and its index freed once iff attached", "remove")
        for i in matching(f, push):
            cx.ob(isarg(f.strip(i.ops[1])) or any(s.op == "store" and v_arg(1)(f.strip(s.ops[0])) for s in f.writers(f.root_of(i.ops[1]))), f, "its own index is freed", "remove/index", i)
        hv = [i for i in f.ins() if i.op == "load" and re.search(r"m_hasValue$", f.addr(i))]
        why, done = scans(f, hv, 256)
        cx.ob(why is None, f, "all triggers are searched (%s)" % why, "remove/scan")
        if done:
            w = f.search(None, is_ret, push, done)
            cx.ob(w is None, f, "the search goes on until it is found", "remove/search", None, w)
        gs = matching(f, gid)
        same_slot = all(f.root_of(i.ops[0]) is f.root_of(g.ops[0]) for i in matching(f, anyof(inv, dtor)) for g in gs)
        cx.ob(bool(gs) and same_slot, f, "the trigger found is the one removed", "remove/same")
    for f in cx.fns("w_removeAllTriggers"):
        ds = matching(f, dtor)
        req_some(cx, f, ds, "the triggers are released", "all/some")
        hv = [i for i in f.ins() if i.op == "load" and re.search(r"m_hasValue$", f.addr(i))]
        why, done = scans(f, hv, 256)
        cx.ob(why is None, f, "all triggers are released (%s)" % why, "all/scan")
        w = f.search_edge(holds(truth_of(lambda i: i in hv)), lambda i: i in hv or i.op == "ret", dtor)
        cx.ob(w is None, f, "an attached trigger is released", "all/release", None, w)
        if done:
            w = f.search(None, is_ret, None, done)
            cx.ob(w is None, f, "the loop runs to its end", "all/end", None, w)
    for f in cx.fns("w_~WaitSet"):
        rm, fin = call(r"WaitSet::removeAllTriggers$"), store(r"m_toBeDestroyed", v_const(1))
        on_all_returns(cx, f, rm, "all triggers are released", "dtor/all")
        on_all_returns(cx, f, fin, "the condition variable is given back", "dtor/free")
        for i in matching(f, fin):
            req_before(cx, f, i, rm, "the triggers are released before the condition variable goes", "dtor/order")


@P.rule("R10", "a wait keeps every notification until it was reported, and reports each satisfied trigger", min=16)
def ws_wait(cx):
    act = r"m_activeNotifications"
    for f in cx.fns("w_acquireNotifications"):
        wt = [i for i in f.ins() if i.op == "call" and not i.callee]
        req_some(cx, f, wt, "the wait is performed", "acq/wait")
        wait = lambda i: i in wt
        got = {f.root_of(i.ops[0]).id for i in wt}
        isgot = lambda v: isinstance(f.root_of(v), Ins) and f.root_of(v).id in got
        isact = lambda v: re.search(act, f.path(v)) is not None
        asg = lambda i: i.op == "call" and re.search(r"vector::operator=$", i.callee or "") is not None and isact(i.ops[0])
        mrg = call(r"uniqueMergeSortedNotificationVector$")
        emp = lambda who: truth_of(lambda i: i.op == "call" and re.search(r"vector::empty$", i.callee or "") is not None and who(i.ops[0]))
        for m in matching(f, mrg):
            cx.ob((isgot(m.ops[1]) and isact(m.ops[2])) or (isgot(m.ops[2]) and isact(m.ops[1])), f, "old and new notifications are merged", "acq/merge", m)
        for i in matching(f, asg):
            r = f.root_of(i.ops[1])
            merged = any(mrg(w) and f.root_of(w.ops[0]) is r for w in (f.writers(r) if isinstance(r, Ins) else []))
            if merged:
                continue
            cx.ob(isgot(i.ops[1]), f, "the new notifications are kept", "acq/new", i)
            w = f.unguarded(i, holds(emp(isact)))
            cx.ob(w is None, f, "old notifications are replaced only if there are none", "acq/replace", i, w)
        w = f.search(wt, is_ret, asg, holds(emp(isgot)))
        cx.ob(w is None, f, "new notifications are kept", "acq/kept", None, w)
        on_all_returns(cx, f, wait, "the wait is performed", "acq/all")
    for f in cx.fns("merge"):
        merge(cx, f)
    for f in cx.fns("w_waitAndReturnTriggeredTriggers"):
        acq, mk = call(r"WaitSet::acquireNotifications$"), call(r"WaitSet::createVectorWithTriggeredTriggers$")
        was = truth_call(r"ConditionListener::wasNotified$")
        emp = truth_of(lambda i: i.op == "call" and re.search(r"vector::empty$", i.callee or "") is not None)
        rows = table(f, {"acq": acq, "make": mk, "move": lambda i: i.op == "call" and re.search(r"vector::(vector|operator=)$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0",
                         "direct": lambda i: mk(i) and f.path(i.ops[0]) == "arg0"}, {"was": was, "empty": emp}, cap=4)

        def ok(r):
            if r.lit.get("was") is None or r.lit.get("empty") is None:
                return False
            seq = [e for e in r.ev if e in ("acq", "make")]
            exp = (["acq"] if r.lit["was"] else []) + ["make"] + (["acq", "make"] if r.lit["empty"] else [])
            return seq == exp and (r.n("direct") or r.n("move"))
        check_rows(cx, f, rows, ok, "pending notifications are collected, then reported; it waits only if nothing is to be reported", "wait")
    for f in cx.fns("w_createVectorWithTriggeredTriggers"):
        sat = call(r"Trigger::isStateConditionSatisfied$")
        pushed = lambda i: i.op == "call" and re.search(r"vector::(push_back|emplace_back)$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0"
        er = lambda i: i.op == "call" and re.search(r"vector::erase$", i.callee or "") is not None and re.search(act, f.path(i.ops[0])) is not None
        at = lambda i: i.op == "call" and re.search(r"vector::(operator\[\]|at)$", i.callee or "") is not None and re.search(act, f.path(i.ops[0])) is not None
        ty = lambda v: isinstance(v, Ins) and v.op == "call" and re.search(r"Trigger::getTriggerType$", v.callee or "") is not None
        ats = matching(f, at)
        req_some(cx, f, ats, "the notifications are visited", "make/visit")
        ok = False
        for a in ats:
            i = f.strip(a.ops[1])
            if isinstance(i, Ins) and i.op == "phi":
                dn = [x for x in i.ops if f.affine(x) == {("v", i.id): 1, 1: (1 << 64) - 1}]
                ini = [x for x in i.ops if x not in dn]
                szc = [x for x in f.ins() if x.op == "call" and re.search(r"vector::size$", x.callee or "") and re.search(act, f.path(x.ops[0]))]
                ok |= bool(dn) and bool(ini) and all(any(sgn((lambda d: d.get(1, 0))(adiff(f, x, s))) == -1 and set(adiff(f, x, s)) == {1} for s in szc) for x in ini)
                zero = lambda k, pol: k[0] == "eq" and pol and k[1] is i and isnull(k[2])
                none = truth_of(lambda x: x.op == "call" and re.search(r"vector::empty$", x.callee or "") is not None and re.search(act, f.path(x.ops[0])) is not None)
                w = f.search(None, is_ret, None, either(zero, holds(none)))
                cx.ob(w is None, f, "all notifications are visited", "make/all", a, w)
        cx.ob(ok, f, "the notifications are visited from the last to the first, so that removing one skips none", "make/backwards", ats[0] if ats else None)
        occ = truth_of(load(r"m_triggerArray\[\]\.m_hasValue$"))
        # per visit table
        hits = []
        start = ats[0] if ats else None
        bad = {"report": None, "gone": None, "erase": None}

        def step(st, i):
            if i is start:
                if st.get("v"):
                    judge(st)
                for k in [k for k in st if k != "h"]:
                    st.pop(k)
                st["v"] = 1
            if sat(i):
                st["sat?"] = 1
            if pushed(i):
                st["push"] = st.get("push", 0) + 1
            if er(i):
                st["er"] = st.get("er", 0) + 1
            if i.op == "ret" and st.get("v"):
                judge(st)

        def judge(st):
            gone, sa, ev = st.get("occ") is False, st.get("sat"), st.get("ev")
            if gone and (st.get("push") or st.get("er", 0) != 1):
                bad["gone"] = 1
            if not gone and bool(sa) != (st.get("push", 0) == 1):
                bad["report"] = 1
            if not gone and (st.get("er", 0) == 1) != bool(sa and ev):
                bad["erase"] = 1

        def edge(st, k, pol):
            t = occ(k, pol)
            if t is not None and "occ" not in st:
                st["occ"] = t
            t = truth_of(sat)(k, pol)
            if t is not None:
                st["sat"] = t
            t = equals(ty, v_const(1))(k, pol)
            if t is not None:
                st["ev"] = t
            t = equals(ty, v_const(0))(k, pol)
            if t is not None:
                st["ev"] = not t
        if start is not None:
            f.simulate({}, step, edge)
        cx.ob(not bad["report"], f, "a trigger is reported iff it is satisfied", "make/report")
        cx.ob(not bad["gone"], f, "the notification of a detached trigger is dropped, and it is not reported", "make/gone")
        cx.ob(not bad["erase"], f, "a notification is dropped only when the trigger is gone or an event was reported", "make/erase")
        for i in matching(f, er):
            v = f.strip(i.ops[1])
            ix = index_of(f, v)
            cx.ob(ix is not None and any(same(f, ix, a.ops[1]) for a in ats), f, "the visited notification is dropped", "make/which", i)


def merge(cx, f):
    """every element of either vector is copied: each counter only advances after (or with) emplacing the element it points at,
    and the function returns only when both are exhausted"""
    emp = lambda i: i.op == "call" and re.search(r"vector::(emplace_back|push_back)$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0"
    for a in (1, 2):
        size = lambda v: isinstance(v, Ins) and v.op == "call" and re.search(r"vector::size$", v.callee or "") is not None and f.path(v.ops[0]) == "arg%d" % a
        done = lambda k, pol: k[0] == "ult" and not pol and size(f.strip(k[2])) or (k[0] == "eq" and pol and (size(f.strip(k[1])) or size(f.strip(k[2]))))
        w = f.search(None, is_ret, None, done)
        cx.ob(w is None, f, "vector %d is merged to its end" % a, "merge/end%d" % a, None, w)
    ats = [i for i in f.ins() if i.op == "call" and re.search(r"vector::(operator\[\]|at)$", i.callee or "") and f.path(i.ops[0]) in ("arg1", "arg2")]
    el = {1: [], 2: []}
    for i in ats:
        el[1 if f.path(i.ops[0]) == "arg1" else 2].append(i)
    # each advance of an index is preceded, since the index's last change, by emplacing an element read at that index (or an equal one)
    eqs = equals(lambda v: isinstance(v, Ins) and v.op == "load" and f.strip(v.ops[0]) in ats, lambda v: isinstance(v, Ins) and v.op == "load" and f.strip(v.ops[0]) in ats)
    for a in (1, 2):
        steps = [x for x in f.ins() if x.op == "add" and v_const(1)(f.strip(x.ops[1])) and any(f.derives(e.ops[1], v_is(x), through_mem=False) for e in el[a])]
        req_some(cx, f, steps, "vector %d is walked" % a, "merge/step%d" % a)
        mine = lambda i: emp(i) and any(f.strip(i.ops[1]) is e for e in el[a])
        any_ = lambda i: emp(i)
        ph = {i.id for i in f.ins() if i.op == "phi" and any(f.derives(e.ops[1], v_is(i), through_mem=False) for e in el[a])}
        for s in steps:
            cur = f.strip(s.ops[0])
            own = lambda i: emp(i) and any(f.strip(i.ops[1]) is e and f.strip(e.ops[1]) is cur for e in el[a])
            nxt = lambda i: i.op == "ret" or i.id in ph
            first = [i for i in f.ins() if i is cur] or [None]
            before = f.search(first, lambda i: i is s, own, holds(eqs)) is not None
            w = f.search(s, nxt, own)
            cx.ob(not (before and w is not None), f, "no notification of vector %d is skipped" % a, "merge/skip%d" % a, s, w)
            before = f.search(first, lambda i: i is s, emp) is not None
            w = f.search(s, nxt, emp)
            cx.ob(not (before and w is not None), f, "an advance goes with an element", "merge/emplace%d" % a, s, w)


DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "endpoints.cpp")
EOPQ = [r"^iox::popo::TriggerHandle::", r"^iox::popo::(Subscriber|Client|Server)PortUser::"]
P.group("e", [DRV, "iceoryx_binding_c/source/cpp2c_subscriber.cpp"], opaque=EOPQ)
for n in ("enableState", "enableEvent", "disableState", "disableEvent", "invalidateTrigger"):
    for c in ("Subscriber", "Client", "Server"):
        P.root("e", "b_%s_%s" % (n, c), "iox::popo::Base%s::%s" % (c, n))
    P.root("e", "b_%s_C" % n, "cpp2c_Subscriber::" + n)


@P.rule("R11", "an attached endpoint notifies the handle's condition variable with its id; a detached one notifies nobody", min=40)
def endpoints(cx):
    tr = r"^arg0\.m_trigger$"
    asg, rst, inv = call(r"TriggerHandle::operator=$", (0, tr)), call(r"TriggerHandle::reset$", (0, tr)), call(r"TriggerHandle::invalidate$", (0, tr))
    sets, unset = call(r"PortUser::setConditionVariable$"), call(r"PortUser::unsetConditionVariable$")
    for c in ("Subscriber", "Client", "Server", "C"):
        for n in ("enableState", "enableEvent"):
            for f in cx.fns("b_%s_%s" % (n, c)):
                rows = table(f, {"asg": asg, "set": sets}, {"known": equals(v_arg(2), v_const(0))})
                check_rows(cx, f, rows, lambda r: r.lit.get("known") is False or (r.n("asg") == 1 and r.n("set") == 1 and r.before("asg", "set")), "the handle is taken over, then the port notifies it", "%s/%s" % (c, n))
                for i in matching(f, asg):
                    cx.ob(f.path(i.ops[1]) == "arg1", f, "the given handle", "%s/%s/handle" % (c, n), i)
                for i in matching(f, sets):
                    a, b = f.strip(i.ops[1]), f.strip(i.ops[2])
                    ok = isinstance(a, Ins) and isinstance(b, Ins) and re.search(r"TriggerHandle::getConditionVariableData$", a.callee or "") and re.search(r"TriggerHandle::getUniqueId$", b.callee or "") \
                        and re.search(tr, f.path(a.ops[0])) and re.search(tr, f.path(b.ops[0]))
                    cx.ob(bool(ok), f, "the handle's condition variable and id", "%s/%s/id" % (c, n), i)
                    if ok:
                        for x in (a, b):
                            req_before(cx, f, x, asg, "read after the handle was taken over", "%s/%s/order" % (c, n))
        for n in ("disableState", "disableEvent"):
            for f in cx.fns("b_%s_%s" % (n, c)):
                rows = table(f, {"reset": rst, "unset": unset}, {"known": equals(v_arg(1), v_const(0))})
                check_rows(cx, f, rows, lambda r: r.lit.get("known") is False or (r.n("reset") == 1 and r.n("unset") >= 1), "the handle is released and the port stops notifying", "%s/%s" % (c, n))
        for f in cx.fns("b_invalidateTrigger_" + c):
            eq = equals(lambda v: isinstance(v, Ins) and re.search(r"TriggerHandle::getUniqueId$", v.callee or "") is not None, v_arg(1))
            rows = table(f, {"inv": inv, "unset": unset, "reset": rst}, {"same": eq})
            check_rows(cx, f, rows, lambda r: r.lit.get("same") is not None and r.n("inv") == r.n("unset") == (1 if r.lit["same"] else 0) and not r.n("reset"), "the trigger with that id, and no other, is invalidated and the port stops notifying", "%s/invalidate" % c)
