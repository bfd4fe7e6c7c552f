from engine.core import Prop
from rules.lib import *
from rules.p09 import PORTS

P = Prop("P11")
P.explain = """
Publication order in notify, path search over the wait loop (semaphore callbacks inlined): blocking is reachable only after a
complete scan of all flags that found nothing, flags are consumed by acquiring read-modify-writes and reported, the
announcement is withdrawn before the scan; lock typestate of the queue's attachment."""
BBS = "iceoryx_posh/source/popo/building_blocks/"
SEM = [r"^iox::(detail::)?(UnnamedSemaphore|SemaphoreInterface|NamedSemaphore)::"]
P.group("c", [BBS + "condition_listener.cpp", BBS + "condition_notifier.cpp", BBS + "condition_variable_data.cpp"], opaque=SEM)
for n in ("waitImpl", "destroy", "wasNotified", "wait", "timedWait", "resetSemaphore"):
    P.root("c", n, "iox::popo::ConditionListener::" + n)
P.root("c", "notify", "iox::popo::ConditionNotifier::notify")
P.root("c", "notifier", "iox::popo::ConditionNotifier::ConditionNotifier")
P.root("c", "data", "iox::popo::ConditionVariableData::ConditionVariableData")
P.group("q", PORTS, opaque=[r"^iox::mepoo::(SharedChunk|ShmSafeUnmanagedChunk)::", r"^iox::popo::VariantQueue::", r"^iox::popo::ConditionNotifier::", r"^iox::popo::(ThreadSafePolicy|SingleThreadedPolicy)::"])
P.root("q", "push", "iox::popo::ChunkQueuePusher::push")
for n in ("setConditionVariable", "unsetConditionVariable"):
    P.root("q", n, "iox::popo::ChunkQueuePopper::" + n)
ACT, WAS, DST = r"m_activeNotifications(\[\])?(\.m_value)?$", r"m_wasNotified(\.m_value)?$", r"m_toBeDestroyed(\.m_value)?$"
post = call(r"(SemaphoreInterface|UnnamedSemaphore)::post$", (1, r"m_semaphore"))
block = call(r"(SemaphoreInterface|UnnamedSemaphore)::(wait|timedWait)$", (1, r"m_semaphore"))
drain = call(r"(SemaphoreInterface|UnnamedSemaphore)::tryWait$", (1, r"m_semaphore"))


def acc(rx, kinds):
    r = re.compile(rx)
    return lambda i: i.op in kinds and r.search(i.fn.addr(i)) is not None


def sets(rx):
    """the flag becomes true, published with release"""
    return lambda i: (acc(rx, ("store",))(i) and v_const(1)(i.fn.strip(i.ops[0])) or acc(rx, ("atomicrmw",))(i) and v_const(1)(i.fn.strip(i.ops[1]))) and atleast_rel(i)


@P.rule("R1", "a notification is flagged for its index, published, and only then announced and posted", min=6)
def notify(cx):
    for f in cx.fns("notify"):
        on_all_returns(cx, f, sets(ACT), "the notification is flagged with release order", "flag")
        on_all_returns(cx, f, sets(WAS), "it is announced with release order", "announce")
        on_all_returns(cx, f, post, "the waiting thread is woken", "post")
        for i in matching(f, acc(ACT, ("store", "atomicrmw"))):
            ix = index_of(f, dst(i))
            cx.ob(ix is not None and v_path(r"^\*?arg0\.m_notificationIndex$")(ix), f, "the flag belongs to the notifier", "index", i)
        for e, n in ((post, "post"), (sets(WAS), "announce")):
            for i in matching(f, e):
                req_before(cx, f, i, sets(ACT), "flagged before it is announced or posted", "order/" + n)
        for i in matching(f, post):
            req_before(cx, f, i, sets(WAS), "announced before it is posted", "order/was")


def bound(cx):
    """number of notification indices: what the notifier's constructor accepts"""
    f = cx.fn("notifier")
    for b, sc, dnf, t in f.edges():
        for c in dnf:
            for k, pol in c:
                if k[0] == "ult" and pol and v_arg(2)(f.strip(k[1])) and v_const()(f.strip(k[2])):
                    return f, f.strip(k[2]).v
                if k[0] == "ult" and not pol and v_arg(2)(f.strip(k[2])) and v_const()(f.strip(k[1])):
                    return f, f.strip(k[1]).v + 1
    return f, None


@P.rule("R2", "a wait reports exactly the flags it consumed, after visiting all of them, and blocks only when none was set", min=24)
def wait(cx):
    nf, n = bound(cx)
    cx.ob(n is not None, nf, "only indices of existing flags are accepted", "bound")
    if n:
        ok = lambda k, pol: (k[0] == "ult" and pol and v_arg(2)(nf.strip(k[1])) and v_const(n)(nf.strip(k[2]))) or (k[0] == "ult" and not pol and v_arg(2)(nf.strip(k[2])) and v_const(n - 1)(nf.strip(k[1])))
        w = nf.search(None, is_ret, None, ok)
        cx.ob(w is None, nf, "only indices of existing flags are accepted", "bound-guard", None, w)
    for rid in ("wait", "timedWait"):
        for f in cx.fns(rid):
            reads = reads_of(f, ACT)
            take = [i for i in f.ins() if acc(ACT, ("atomicrmw", "cmpxchg"))(i)]
            plain = [i for i in f.ins() if acc(ACT, ("store",))(i)]
            cx.ob(not plain, f, "a flag is consumed by a read-modify-write", rid + "/plain", plain[0] if plain else None)
            req_some(cx, f, take, "flags are consumed", rid + "/take")
            for t in take:
                cx.ob(t.op == "cmpxchg" or v_const(0)(f.strip(t.ops[1])), f, "consuming a flag clears it", rid + "/clears", t)
                cx.ob(atleast_acq(t), f, "consuming a flag acquires what was written before it was set", rid + "/acquire", t)
            rep = [i for i in f.ins() if i.op == "call" and re.search(r"iox::vector::(emplace_back|push_back)$", i.callee or "") and f.path(i.ops[0]) == "arg0"]
            req_some(cx, f, rep, "active notifications are reported", rid + "/report")
            tk = lambda i: i in take
            rp = lambda i: i in rep
            stepping = lambda i: i in reads
            set_ = truth_of(stepping)
            for e in rep:
                w = f.unguarded(e, holds(set_))
                cx.ob(w is None, f, "only set flags are reported", rid + "/only", e, w)
                req_before(cx, f, e, tk, "what is reported was consumed", rid + "/consumed")
            # between consuming and the next read or the return: reported
            for t in take:
                w = f.search(t, lambda i: i.op == "ret" or block(i) or (i in reads and i is not t), rp, holds(truth_of(v_is(t)), False))
                cx.ob(w is None, f, "what is consumed is reported", rid + "/reported", t, w)
                # the consumed index is the reported one
            for e in rep:
                v = f.strip(e.ops[1])
                okix = False
                for t in take:
                    ix = index_of(f, t.ops[0])
                    a = f.root_of(ix.ops[0]) if isinstance(ix, Ins) and ix.op == "load" else None
                    okix |= (a is not None and f.root_of(v) is a) or (ix is not None and f.derives(v, v_is(ix))) or any(
                        s.op == "store" and f.root_of(s.ops[1]) is f.root_of(v) and ix is not None and f.derives(s.ops[0], v_is(ix)) for s in f.ins() if s.op == "store") or ix is None
                cx.ob(okix, f, "the consumed index is reported", rid + "/index", e)
            why, done = scans(f, [r for r in reads], n or 0)
            cx.ob(why is None, f, "all flags are visited (%s)" % why, rid + "/all")
            bl = matching(f, block)
            req_some(cx, f, bl, "the thread can block", rid + "/block")
            if done:
                for b in bl:
                    w = f.search([None] + matching(f, drain) + bl, lambda i: i is b, None, done)
                    cx.ob(w is None, f, "blocking only after all flags were visited", rid + "/scan-before-block", b, w)
                w = f.search(bl, is_ret, None, either(done, holds(truth_of(acc(DST, ("load",))))))
                cx.ob(w is None, f, "after waking, all flags are visited again before returning", rid + "/scan-after-block", None, w)
            empty = truth_of(lambda i: i.op == "call" and re.search(r"iox::vector::empty$", i.callee or "") is not None and f.path(i.ops[0]) == "arg0")
            sz0 = equals(lambda x: isinstance(x, Ins) and x.op == "call" and re.search(r"iox::vector::size$", x.callee or "") is not None and f.path(x.ops[0]) == "arg0", v_const(0))
            for b in bl:
                w = f.search(rep, lambda i: i is b, None, either(holds(empty), holds(sz0)))
                cx.ob(w is None, f, "blocking only when nothing is to be reported", rid + "/empty", b, w)
                w = f.search([None] + matching(f, drain) + bl, lambda i: i is b, None, holds(truth_of(acc(DST, ("load",))), False))
                cx.ob(w is None, f, "a destroyed listener does not block", rid + "/destroyed", b, w)
            # the announcement is withdrawn before the flags are read, atomically
            clr = [i for i in f.ins() if acc(WAS, ("store", "atomicrmw", "cmpxchg"))(i)]
            for c in clr:
                cx.ob(c.op == "cmpxchg" or v_const(0)(f.strip(c.ops[0 if c.op == "store" else 1])), f, "withdrawing the announcement clears it", rid + "/was-value", c)
                cx.ob(c.op != "store" and atleast_acq(c), f, "the announcement is withdrawn by an acquiring read-modify-write", rid + "/was-rmw", c)
                w = f.search(reads, lambda i: i is c, block)
                cx.ob(w is None, f, "the announcement is not withdrawn after flags were read", rid + "/was-order", c, w)
                if done:
                    w = f.search(c, is_ret, None, done)
                    cx.ob(w is None, f, "after withdrawing the announcement all flags are read", rid + "/was-scan", c, w)
            cx.ob(bool(clr) or rid == "timedWait", f, "the announcement is withdrawn", rid + "/was")


@P.rule("R3", "destroying a listener ends its wait", min=2)
def destroy(cx):
    for f in cx.fns("destroy"):
        st = store(DST, v_const(1))
        on_all_returns(cx, f, st, "the listener is marked", "mark")
        on_all_returns(cx, f, post, "the waiting thread is woken", "post")
        for p in matching(f, post):
            req_before(cx, f, p, st, "marked before the thread is woken", "order")


lock = call(r"Policy::lock$", (0, r"^\*arg0[.+\w]*$"))
unlock = call(r"Policy::unlock$", (0, r"^\*arg0[.+\w]*$"))
CVP, CVI = r"m_conditionVariableDataPtr$", r"m_conditionVariableNotificationIndex"


@P.rule("R4", "every push notifies the attached listener after the chunk is in the queue; attaching and detaching exclude notifying", min=30)
def queue(cx):
    qpush = call(r"VariantQueue::push$", (1, r"\.m_queue$"))
    ncall = call(r"ConditionNotifier::notify$")
    mk = call(r"ConditionNotifier::ConditionNotifier$")
    raw = lambda i: i.op == "call" and i.callee == "iox::RelativePointer::computeRawPtr" and re.search(CVP, i.fn.path(i.ops[0])) is not None
    for f in cx.fns("push"):
        ns = matching(f, ncall)
        req_some(cx, f, ns, "the listener is notified", "push/some")
        for i in ns:
            req_before(cx, f, i, qpush, "notified after the chunk is in the queue", "push/after")
            b = f.root_of(i.ops[0])
            ms = [m for m in matching(f, mk) if f.root_of(m.ops[0]) is b]
            cx.ob(bool(ms) and all(f.derives(m.ops[1], raw) and f.mentions(m.ops[2], CVI) for m in ms), f, "the attached listener is notified with the index it was attached with", "push/which", i)
        w = f.search(matching(f, qpush), is_ret, lambda i: i in ns, holds(truth_of(raw), False))
        cx.ob(w is None, f, "every push notifies if a listener is attached", "push/always", None, w)
        for e in [i for i in f.ins() if raw(i) or (i.op == "load" and re.search(CVI, f.addr(i))) or i in ns]:
            w = held(f, lock, unlock, e)
            cx.ob(w is None, f, "the attachment is used under the queue's lock", "push/lock", e)
        cx.ob(balanced(f, lock, unlock) is None, f, "the lock is given back", "push/balance")
    for rid in ("setConditionVariable", "unsetConditionVariable"):
        for f in cx.fns(rid):
            es = [i for i in f.ins() if (i.op in ("store", "load") and re.search(CVP + "|" + CVI, f.addr(i))) or (i.op == "call" and i.ops and re.search(CVP + "|" + CVI, f.path(i.ops[0])))]
            ptr = [i for i in es if (i.op == "call" and re.search(r"RelativePointer::(operator=|RelativePointer)$", i.callee or "")) or (i.op == "store" and re.search(r"m_conditionVariableDataPtr", f.addr(i)))]
            req_some(cx, f, ptr, "the listener is set", rid + "/ptr")
            on_all_returns(cx, f, lambda i: i in ptr, "the listener is set on every path", rid + "/all")
            idx = [i for i in es if i.op == "store" and re.search(CVI, f.addr(i))]
            if rid == "unsetConditionVariable":
                cx.ob(all(isnull(f.strip(i.ops[1])) for i in ptr if i.op == "call"), f, "no listener is attached any more", rid + "/null")
            if rid == "setConditionVariable":
                cx.ob(any(v_arg(2)(f.strip(i.ops[0])) for i in idx) and all(v_arg(1)(f.strip(i.ops[1])) for i in ptr if i.op == "call"), f, "the given listener and index are stored", rid + "/which")
            for e in es:
                cx.ob(held(f, lock, unlock, e) is None, f, "the attachment is changed under the queue's lock", rid + "/lock", e)
            cx.ob(balanced(f, lock, unlock) is None, f, "the lock is given back", rid + "/balance")


@P.rule("R5", "a new condition variable has no notification pending, is not destroyed, and its semaphore works between processes and starts empty", min=10)
def fresh(cx):
    for f in cx.fns("data"):
        for nm, rx in (("announcement", r"^arg0\.m_wasNotified"), ("destruction mark", r"^arg0\.m_toBeDestroyed")):
            st = [i for i in f.stores(rx)]
            cx.ob(bool(st) and all(v_const(0)(f.strip(i.ops[0])) for i in st), f, "the %s is clear" % nm, "fresh/" + nm.split()[0])
        fl = [i for i in f.stores() if re.search(r"m_value$", f.addr(i)) and f.derives(i.ops[1], lambda x: isinstance(x, Ins) and x.op == "phi") and f.mentions(i.ops[1], "m_activeNotifications") or re.search(r"m_activeNotifications", f.addr(i))]
        cx.ob(bool(fl) and all(v_const(0)(f.strip(i.ops[0])) for i in fl), f, "no notification is pending", "fresh/flags")
        for c in f.calls(r"UnnamedSemaphoreBuilder::create$"):
            b = f.root_of(c.ops[1])
            st = [i for i in f.stores() if f.root_of(i.ops[1]) is b]
            last = lambda sfx: [i for i in st if (f.addr(i).endswith("+4")) == sfx and f.search(i, lambda x: x is c, lambda x: x in st and x is not i and (f.addr(x).endswith("+4")) == sfx) is not None]
            cx.ob(bool(last(True)) and all(v_const(1)(f.strip(i.ops[0])) for i in last(True)), f, "the semaphore works between processes", "fresh/shared", c)
            cx.ob(bool(last(False)) and all(v_const(0)(f.strip(i.ops[0])) for i in last(False)), f, "the semaphore starts empty", "fresh/empty", c)
