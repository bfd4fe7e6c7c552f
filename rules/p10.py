from engine.core import Prop
from rules.lib import *
from rules.p09 import PORTS

P = Prop("P10")
P.explain = """
Path-sensitive policy automaton over delivery (each failed push must be retried or reported as lost, as the two policies
demand), lock typestate over every access to the shared queue list and history, loop coverage, history replay order,
queue-type dispatch tables."""
OPQ = [r"^iox::mepoo::(SharedChunk|ShmSafeUnmanagedChunk)::", r"^iox::popo::VariantQueue::", r"^iox::popo::ConditionNotifier::",
       r"^iox::popo::(ThreadSafePolicy|SingleThreadedPolicy)::"]
D = "iox::popo::ChunkDistributor::"
P.group("d", PORTS, opaque=OPQ + [r"^iox::popo::ChunkQueuePusher::(push|lostAChunk)$", r"^std::(find|find_if|any_of|none_of|__find_if)$"])
ALL = ("tryAddQueue", "tryRemoveQueue", "removeAllQueues", "hasStoredQueues", "deliverToAllStoredQueues", "deliverToQueue", "getQueueIndex", "addToHistoryWithoutDelivery", "clearHistory", "cleanup")
for n in ALL:
    P.root("d", n, D + n)
P.group("f", PORTS, opaque=OPQ + [r"^iox::popo::ChunkQueuePusher::(push|lostAChunk)$"])
for n in ("tryAddQueue", "tryRemoveQueue"):
    P.root("f", "f_" + n, D + n)
P.group("q", PORTS, opaque=OPQ)
for n in ("push", "lostAChunk"):
    P.root("q", n, "iox::popo::ChunkQueuePusher::" + n)
P.group("v", PORTS, opaque=[r"^iox::concurrent::"])
for n in ("push", "pop", "setCapacity", "empty", "size", "capacity", "VariantQueue"):
    P.root("v", "v_" + n, "iox::popo::VariantQueue::" + n, min=0 if n in ("size", "capacity") else 1)
DATA = r"m_chunkDistrubutorDataPtr|DistributorDataPtr"
QS, HI = r"\.m_queues$", r"\.m_history$"
lock = call(r"Policy::lock$|^pthread_mutex_lock|lock_guard.*lock_guard$", (0, r"DataPtr$"))
unlock = call(r"Policy::unlock$", (0, r"DataPtr$"))
trylock = call(r"Policy::tryLock$", (0, r"DataPtr$"))
push = call(r"ChunkQueuePusher::push$")
lost = call(r"ChunkQueuePusher::lostAChunk$")
WAITC, BLOCKQ = r"m_consumerTooSlowPolicy$", r"m_queueFullPolicy$"


def shared(f):
    """constructs that use the shared queue list or history"""
    return [i for i in f.ins() if i.op == "call" and any(re.search(QS + "|" + HI, f.path(o)) for o in i.ops[:1] if True) or
            (i.op in ("load", "store") and re.search(r"\.m_(queues|history)\b", f.addr(i)))]


@P.rule("R1", "queue list and history are only used under the distributor's lock, which every path gives back", min=60)
def locks(cx):
    for rid in ALL:
        for f in cx.fns(rid):
            us = shared(f)
            if rid not in ("x",):
                req_some(cx, f, us, "the shared lists are used", rid + "/some")
            pre = [c for c in matching(f, trylock)]

            def L(i):
                return lock(i)
            for e in us:
                if pre:
                    w = f.unguarded(e, holds(truth_of(trylock)), loop=False)
                    if w is None:
                        cx.ob(True, f, "used under the lock", rid + "/locked", e)
                        continue
                w = held(f, L, unlock, e)
                cx.ob(w is None, f, "used under the lock", rid + "/locked", e)
            # balance: a successful tryLock counts as one acquisition

            def step(st, i):
                if lock(i):
                    st["h"] = min(st["h"] + 1, 4)
                elif unlock(i):
                    st["h"] = max(st["h"] - 1, -2)
                return None

            def edge(st, k, pol):
                t = truth_of(trylock)(k, pol)
                if t is True:
                    st["h"] += 1
                return None
            bad = [tr for r, st, tr in f.simulate({"h": 0}, step, edge, phis=False) if st["h"]]
            cx.ob(not bad, f, "every path releases the lock as often as it was taken", rid + "/balance", None, bad[0] if bad else None)


def pusher_queue(f, c):
    """element pointer of the queue list a push / lostAChunk call addresses"""
    b = f.root_of(c.ops[0])
    if isinstance(b, Ins) and b.op == "alloca":
        for w in f.writers(b):
            if w.op == "store":
                v = f.strip(w.ops[0])
                if isinstance(v, Ins) and v.op == "call" and v.callee == "iox::RelativePointer::computeRawPtr":
                    return f.strip(v.ops[0])
                return v
            if w.op == "call" and re.search(r"ChunkQueuePusher::ChunkQueuePusher$", w.callee or ""):
                v = f.strip(w.ops[1])
                return f.strip(v.ops[0]) if isinstance(v, Ins) and v.op == "call" and v.callee == "iox::RelativePointer::computeRawPtr" else v
    return None


def local_vec(f, i):
    return i.op == "call" and re.search(r"iox::vector::(push_back|emplace_back)$", i.callee or "") and isinstance(f.root_of(i.ops[0]), Ins) and f.root_of(i.ops[0]).op == "alloca"


def OKST(f, i):
    return store(EXP_TAG, v_const(0))(i)


def policy(cx, rid, f):
    """automaton: every failed push is resolved as the policies demand"""
    waitc, blockq = enum2(WAITC), enum2(BLOCKQ)
    bad = []

    def kind(c):
        q = pusher_queue(f, c)
        if q is not None and vec_elem(f, q, r"^\$"):
            return "p"
        return "m"

    def step(st, i):
        if (push(i) or i.op == "ret") and st.get("open"):
            bad.append(("outcome", "the outcome of a push is not looked at", i))
            return False
        if push(i):
            if st.get("fail") and rid != "deliverToQueue":
                bad.append(("unresolved", "a failed push is neither retried nor reported before the next one", i))
                return False
            if st.get("fail") and st.get("fb") is not True:
                bad.append(("retry", "a push is retried although the policies do not ask for blocking", i))
                return False
            st["cur"] = kind(i)
            st["fail"] = False
            st["open"] = True
        elif lost(i):
            if not st.get("fail"):
                bad.append(("lost", "a loss is reported although the push did not fail", i))
                return False
            if st["cur"] == "p" or (st.get("w") is not False and st.get("b") is not False):
                bad.append(("lost-blocking", "a loss is accepted although publisher and subscriber agreed to block", i))
                return False
            st["fail"] = False
        elif local_vec(f, i):
            if not st.get("fail"):
                bad.append(("again", "a queue that got the chunk is served again", i))
                return False
            if st["cur"] == "m" and not (st.get("w") is True and st.get("b") is True):
                bad.append(("retry", "a push is retried although the policies do not ask for blocking", i))
                return False
            st["fail"] = False
        elif i.op == "ret" and st.get("fail"):
            if rid != "deliverToQueue" or (st.get("fb") is not True) or any(b is True for b in (st.get("okret"),)):
                bad.append(("unresolved", "a failed push is neither retried nor reported", i))
        elif i.op == "store" and re.search(r"^arg0\.", f.addr(i)) and st.get("fail") and rid == "deliverToQueue":
            if OKST(f, i):
                st["okret"] = True
        elif i.op == "call" and re.search(r"::(begin|operator\[\])$", i.callee or ""):
            st.pop("b", None)
        elif i.op == "phi" and vec_elem(f, i, "."):
            st.pop("b", None)
        return None

    def edge(st, k, pol):
        for n, l in (("w", waitc), ("b", blockq)):
            t = l(k, pol)
            if t is not None:
                st[n] = t
                if st.get("fail") and st.get("fb") is None:
                    st["fb"] = False if t is False else (True if st.get("w") is True and st.get("b") is True else st.get("fb"))
        t = truth_of(push)(k, pol)
        if t is not None:
            st.pop("open", None)
        if t is False:
            st["fail"] = True
            st["fb"] = True if st.get("w") is True and st.get("b") is True else (False if st.get("w") is False or st.get("b") is False else None)
        return None
    f.simulate({"w": None}, step, edge, phis=False)
    seen = set()
    for tag, what, i in bad:
        if tag not in seen:
            seen.add(tag)
            cx.ob(False, f, what, rid + "/" + tag, i)
    cx.ob(not bad, f, "every failed push is resolved as the policies of publisher and subscriber demand", rid + "/policy")


@P.rule("R2", "a failed push blocks (is retried) iff both sides ask for it, and is reported as lost otherwise", min=4)
def policies(cx):
    for rid in ("deliverToAllStoredQueues", "deliverToQueue"):
        for f in cx.fns(rid):
            req_some(cx, f, matching(f, push), "the chunk is pushed", rid + "/push")
            req_some(cx, f, matching(f, lost), "losses are reported", rid + "/lost")
            policy(cx, rid, f)
            for c in matching(f, lost):
                q = pusher_queue(f, c)
                ps = [p for p in matching(f, push) if f.reaches(p, c) is not None and vec_elem(f, pusher_queue(f, p), r"^\$") is None]
                cx.ob(q is not None and any(pusher_queue(f, p) is q for p in ps), f, "the loss is reported to the queue that lost", rid + "/lost-queue", c)


@P.rule("R3", "the chunk goes to every connected queue; waiting ends only when all blocking queues are served or gone", min=12)
def deliver(cx):
    for f in cx.fns("deliverToAllStoredQueues"):
        ps = matching(f, push)
        for p in ps:
            b = f.root_of(p.ops[1])
            cx.ob("arg1" in chunk_chain(f, p.ops[1]), f, "the given chunk is pushed", "chunk", p)
        first = [p for p in ps if vec_elem(f, pusher_queue(f, p), QS)]
        why = [covers_vec(f, p, pusher_queue(f, p), QS) for p in first]
        cx.ob(any(w is None for w in why), f, "every connected queue is served (%s)" % why, "all")
        pend = [i for i in f.ins() if local_vec(f, i)]
        req_some(cx, f, pend, "blocked queues are remembered", "pending")
        for c in pend:
            v = f.root_of(c.ops[0])
            done = truth_of(lambda i: i.op == "call" and re.search(r"iox::vector::empty$", i.callee or "") is not None and f.root_of(i.ops[0]) is v)
            size0 = equals(lambda x: isinstance(x, Ins) and x.op == "call" and re.search(r"iox::vector::size$", x.callee or "") is not None and f.root_of(x.ops[0]) is v, v_const(0))
            w = f.search(c, is_ret, None, either(holds(done), holds(size0)))
            cx.ob(w is None, f, "delivery does not return while a blocking queue is not served", "wait", c, w)
            q = f.strip(c.ops[1])
            cx.ob(any(pusher_queue(f, p) is q or f.derives(q, v_is(pusher_queue(f, p))) for p in ps), f, "the queue that refused is the one served again", "pending-queue", c)
        second = [p for p in ps if p not in first]
        for p in second:
            vec = f.root_of(pusher_queue(f, p)) if pusher_queue(f, p) is not None else None
            w = covers_vec(f, p, pusher_queue(f, p), r"^\$")
            cx.ob(w is None, f, "every remaining queue is served (%s)" % w, "remaining", p)

            def member(i):
                return i.op == "call" and re.search(r"^std::(set_intersection|find|find_if|any_of|none_of|binary_search|count)", i.callee or "") is not None and \
                    any(isinstance(f.strip(o), Ins) and f.strip(o).op == "call" and re.search(QS, f.path(f.strip(o).ops[-1]) if f.strip(o).ops else "") for o in i.ops)
            # since the lock was taken
            w = f.search([l for l in matching(f, lock)], lambda i: i is p, member, None)
            cx.ob(w is None, f, "a waiting queue is served only after checking, under the same lock, that it is still connected", "connected", p, w)
        over = lambda i, rx: any(isinstance(f.strip(o), Ins) and f.strip(o).op == "call" and re.search(r"::c?begin$", f.strip(o).callee or "") is not None and rx(f.strip(o).ops[-1]) for o in i.ops)
        for m in f.calls(r"^std::set_intersection"):
            qs = lambda v: re.search(QS, f.path(v)) is not None
            own = [v for v in {f.root_of(c.ops[0]) for c in pend} if over(m, lambda x: f.root_of(x) is v)]
            w = f.search([l for l in matching(f, lock)], lambda i: i is m, lambda i: i.op == "call" and re.search(r"^std::(stable_)?sort", i.callee or "") is not None and over(i, qs))
            cx.ob(w is None, f, "the connected queues are in order when they are intersected", "sorted-queues", m, w)
            for v in own:
                w = f.search(None, lambda i: i is m, lambda i: i.op == "call" and re.search(r"^std::(stable_)?sort", i.callee or "") is not None and over(i, lambda x: f.root_of(x) is v))
                cx.ob(w is None, f, "the waiting queues are in order when they are intersected", "sorted-waiting", m, w)
                fresh = lambda i: i.op == "call" and re.search(r"vector::(clear|operator=|resize|erase)$|^std::swap|::swap$", i.callee or "") is not None and any(f.root_of(o) is v for o in i.ops)
                for p in second:
                    w = f.search(m, lambda i: i is p, fresh)
                    cx.ob(w is None, f, "queues that waited are forgotten before they are served again", "forget", p, w)
        # number of receivers: starts at zero, grows one by one
        seen, todo, bad = set(), [r.ops[0] for r in f.rets() if r.ops], []
        while todo:
            v = f.strip(todo.pop())
            if isinstance(v, Val):
                if v.k == "c" and v.v != 0:
                    bad.append(v)
            elif isinstance(v, Ins) and v.id not in seen:
                seen.add(v.id)
                if v.op == "phi":
                    todo += v.ops
                elif v.op == "add":
                    c = [o for o in v.ops if isinstance(f.strip(o), Val) and f.strip(o).k == "c"]
                    if any(f.strip(o).v != 1 for o in c):
                        bad.append(v)
                    todo += [o for o in v.ops if o not in c]
        cx.ob(not bad, f, "the number of receivers starts at zero and grows one by one", "number")
        sleep = [i for i in f.ins() if i.op == "call" and re.search(r"adaptive_wait::(wait|wait_loop)$|sleep|yield", i.callee or "")]
        req_some(cx, f, sleep, "waiting for a consumer yields", "yield")
        for s in sleep:
            bad = []

            def step(st, i):
                if lock(i):
                    st["h"] = 1
                elif unlock(i):
                    st["h"] = 0
                elif i is s and st["h"]:
                    bad.append(i)
                return None
            f.simulate({"h": 0}, step, phis=False)
            cx.ob(not bad, f, "the lock is free while waiting for a consumer", "wait-unlocked", s)
        hist = [i for i in f.ins() if i.op == "call" and re.search(r"vector::(push_back|emplace_back)$", i.callee or "") and re.search(HI, f.path(i.ops[0]))]
        cap0 = lambda k, pol: k[0] == "eq" and pol and v_path(r"m_historyCapacity$")(k[1]) and isnull(k[2])
        w = f.search(None, is_ret, lambda i: i in hist, cap0)
        cx.ob(w is None and bool(hist), f, "the delivered chunk becomes part of the history", "history", None, w)
    for f in cx.fns("deliverToQueue"):
        for p in matching(f, push):
            cx.ob("arg4" in chunk_chain(f, p.ops[1]), f, "the given chunk is pushed", "one/chunk", p)
            ok = lambda k, pol: k[0] == "eq" and pol and any(v_path(r"m_uniqueId")(x) for x in k[1:3]) and any(f.derives(x, v_arg(2)) for x in k[1:3])
            req_guard(cx, f, p, ok, "only the queue with the requested id gets the chunk", "one/id")
            # the lock is not left between lookup and push
            bad = []

            def step(st, i):
                if lock(i):
                    st["h"] = min(3, st["h"] + 1)
                elif unlock(i):
                    st["h"] = max(0, st["h"] - 1)
                    if st["h"] == 0:
                        st["id"] = False
                elif i is p and not st.get("id"):
                    bad.append(i)
                return None

            def edge(st, k, pol):
                if ok(k, pol):
                    st["id"] = True
                return None
            f.simulate({"h": 0}, step, edge, phis=False)
            cx.ob(not bad, f, "lookup and push happen under one lock", "one/atomic", p)
        rows = exp_rows(f, dict(push=push), {})
        check_rows(cx, f, rows, lambda r: (r.lit["ret"] == "ok") == (r.n("push") >= 1) or (r.lit["ret"] == "err"), "success is only reported after a push", "one/ret")


@P.rule("R4", "queues are added once and within capacity, with the requested newest samples replayed in order; removal removes the named queue", min=20)
def lists(cx):
    for f in cx.fns("f_tryAddQueue"):
        add = [i for i in f.ins() if i.op == "call" and re.search(r"vector::(push_back|emplace_back)$", i.callee or "") and re.search(QS, f.path(i.ops[0]))]
        req_some(cx, f, add, "the queue is added", "add")
        isend = lambda x: isinstance(x, Ins) and x.op == "call" and re.search(r"::c?end$", x.callee or "") is not None and re.search(QS, f.path(x.ops[-1])) is not None
        known = lambda k, pol: k[0] == "eq" and pol and any(v_arg(2)(x) for x in k[1:3]) and any(isinstance(x, Ins) and x.op == "call" and x.callee == "iox::RelativePointer::computeRawPtr" for x in k[1:3])
        for a in add:
            cx.ob(f.derives(a.ops[1], v_arg(2), through_calls=True), f, "the given queue is added", "which", a)
            req_guard(cx, f, a, holds(less(lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("vector::size") and re.search(QS, f.path(x.ops[0])),
                                           lambda x: (isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("vector::capacity")) or v_const()(x))), "only within the capacity", "capacity")
            w = f.search_edge(known, lambda i: i is a, None, lambda k, pol: k[0] == "eq" and pol and any(isend(x) for x in k[1:3]))
            cx.ob(w is None, f, "a queue that is already connected is not added again", "twice", a, w)
            cont = []

            def step(st, i):
                if st.get("known") and i.op == "call" and i.callee == "iox::RelativePointer::computeRawPtr":
                    st["on"] = True
                if i is a and st.get("known") and (st.get("on") or not st.get("end")):
                    cont.append(i)
                return False if i is a else None

            def edge(st, k, pol):
                if known(k, pol):
                    st["known"] = True
                elif st.get("known") and k[0] == "eq" and pol and any(isend(x) for x in k[1:3]):
                    st["end"] = True
                return None
            f.simulate({}, step, edge)
            cx.ob(not cont, f, "the search for the queue stops when it is found", "found", a)
            cx.ob(any(known(k, pol) for b, sc, dnf, t in f.edges() for c in dnf for k, pol in c), f, "the list is searched for the queue", "search", a)
        rows = exp_rows(f, dict(add=lambda i: i in add, report=REPORT), {})
        check_rows(cx, f, rows, lambda r: r.lit["ret"] == "ok" or (r.lit["ret"] == "err" and r.n("add") == 0), "an error means that nothing was added", "err")
        # replay
        ps = matching(f, push)
        req_some(cx, f, ps, "history is replayed", "replay")
        for p in ps:
            src = [x for x in f.calls(r"::cloneToSharedChunk$") if f.root_of(x.ops[0]).id in chunk_chain(f, p.ops[1])]
            el = [vec_elem(f, x.ops[1], HI) for x in src]
            good = bool(el) and el[0] is not None and el[0][0] == "ix"
            cx.ob(good, f, "what is replayed is the history", "replay-src", p)
            q = pusher_queue(f, p)
            cx.ob(v_arg(2)(q), f, "the history goes to the new queue", "replay-queue", p)
            if good:
                ix = el[0][1]
                size = lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("vector::size") and re.search(HI, f.path(x.ops[0])) is not None
                steps = [x for x in ix.ops if f.affine(x) == {("v", ix.id): 1, 1: 1}]
                cx.ob(bool(steps), f, "samples are replayed oldest first, one by one", "replay-step", p)
                w = f.search(p, is_ret, None, lambda k, pol: k[0] in ("ult", "slt") and not pol and (k[1] is ix or k[1] in steps) and size(f.strip(k[2])))
                cx.ob(w is None, f, "replay ends with the newest sample", "replay-end", p, w)
                req_guard(cx, f, p, lambda k, pol: k[0] in ("ult", "slt") and pol and (k[1] is ix or k[1] in steps) and size(f.strip(k[2])), "replay stays inside the history", "replay-in")
                # start index: size - requested if there are enough, else 0
                found = []

                def step(st, i):
                    if i is ix:
                        if ("seen", ix.id) not in st:
                            st[("seen", ix.id)] = True
                            found.append((st.get("enough"), res(f, st.get(("phi", ix.id), i), st), i))
                        return None
                    return None

                def edge(st, k, pol):
                    if k[0] == "ult":
                        a, b = f.strip(k[1]), f.strip(k[2])
                        if v_arg(3)(b) and size(a):      # size < requested
                            st["enough"] = not pol
                        if v_arg(3)(a) and size(b) and pol:  # requested < size
                            st["enough"] = True
                        if v_arg(3)(a) and size(b) and not pol:  # requested >= size: both start values are the whole history
                            st["enough"] = "all"
                    return None
                f.simulate({}, step, edge)
                good = bool(found)
                for en, v, i in found:
                    if v_const(0)(v):
                        good &= en is False or en == "all"
                    else:
                        d = f.affine(v)
                        m = 1 << 64
                        pos = [k for k, c in d.items() if c == 1]
                        neg = [k for k, c in d.items() if c == m - 1]
                        good &= en is True and len(d) == 2 and neg == [("arg", 3)] and len(pos) == 1 and pos[0][0] == "v" and size(f.byid[pos[0][1]])
                cx.ob(good, f, "replay starts so that exactly the requested number of newest samples is delivered", "replay-start", p)
    for f in cx.fns("f_tryRemoveQueue"):
        er = [i for i in f.ins() if i.op == "call" and re.search(r"vector::erase$", i.callee or "") and re.search(QS, f.path(i.ops[0]))]
        req_some(cx, f, er, "the queue is removed", "rem")
        for e in er:
            el = f.strip(e.ops[1])
            hit = lambda k, pol: k[0] == "eq" and pol and any(v_arg(2)(x) for x in k[1:3]) and any(isinstance(x, Ins) and x.op == "call" and x.callee == "iox::RelativePointer::computeRawPtr" for x in k[1:3])
            notend = lambda k, pol: k[0] == "eq" and not pol and any(isinstance(x, Ins) and x.op == "call" and re.search(r"::c?end$", x.callee or "") is not None for x in k[1:3])
            ok = f.unguarded(e, either(hit, notend), loop=False) is None and any(hit(k, pol) for b, sc, dnf, t in f.edges() for c in dnf for k, pol in c)
            cx.ob(ok, f, "only the named queue is removed", "rem-which", e)
        rows = exp_rows(f, dict(rem=lambda i: i in er), {})
        check_rows(cx, f, rows, lambda r: (r.lit["ret"] == "ok") == (r.n("rem") == 1), "success is reported iff the queue was removed", "rem-ret")


@P.rule("R8", "looking up a queue by its id yields the position of the queue that has it", min=2)
def lookup(cx):
    for f in cx.fns("getQueueIndex"):
        ideq = lambda k, pol: k[0] == "eq" and pol and any(v_path(r"m_uniqueId")(x) for x in k[1:3]) and any(f.derives(x, v_arg(2)) for x in k[1:3])
        outs = [i for i in f.stores(r"^arg0\.m_data$")]
        req_some(cx, f, outs, "a position is returned", "some")
        bad = []

        def elem(k):
            for x in k[1:3]:
                x = f.strip(x)
                if isinstance(x, Ins) and x.op == "load" and "m_uniqueId" in f.addr(x):
                    r = f.root_of(x.ops[0])
                    if isinstance(r, Ins) and r.op == "call" and r.callee == "iox::RelativePointer::computeRawPtr":
                        return f.strip(r.ops[0])
            return None

        def step(st, i):
            if i in outs:
                e = f.byid.get(st.get("el"))
                v = f.strip(i.ops[0])
                if e is None:
                    bad.append((i, "a position is returned without having found the id"))
                    return False
                if e.op == "call" and re.search(r"::(operator\[\]|at)$", e.callee or ""):
                    if not same(f, e.ops[1], v) and not twins(f, f.strip(e.ops[1]), v):
                        bad.append((i, "the position returned is not the one of the queue that was found"))
                elif e.op == "phi":
                    ok = isinstance(v, Ins) and v.op == "phi" and v.blk == e.blk and any(v_const(0)(f.strip(o)) for o in v.ops) and all(v_const(0)(f.strip(o)) or f.affine(o) == {("v", v.id): 1, 1: 1} for o in v.ops) \
                        and all(v_const(0)(f.strip(o)) == (isinstance(f.strip(q), Ins) and f.strip(q).op == "call") for o, q in zip(v.ops, e.ops)) or \
                        (isinstance(v, Ins) and v.op in ("sdiv", "udiv", "ashr", "lshr") and f.derives(v, lambda x: x is e))
                    if not ok:
                        bad.append((i, "the position returned is not the one of the queue that was found"))
            return None

        def edge(st, k, pol):
            if ideq(k, pol):
                e = elem(k)
                st["el"] = e.id if e is not None else None
            return None
        f.simulate({}, step, edge, phis=False)
        cx.ob(not bad, f, bad[0][1] if bad else "every position returned is the one of the queue that was found", "position", bad[0][0] if bad else None)
        for c in f.calls(r"vector::operator\[\]$"):
            if re.search(QS, f.path(c.ops[0])):
                req_guard(cx, f, c, holds(less(lambda x: same(f, x, c.ops[1]), lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("vector::size"))), "only existing positions are looked at", "bounds")


@P.rule("R5", "the history keeps the newest samples up to its capacity and gives up what it drops", min=12)
def history(cx):
    size = lambda f: (lambda x: isinstance(x, Ins) and x.op == "call" and (x.callee or "").endswith("vector::size") and re.search(HI, f.path(x.ops[0])) is not None)
    cap = v_path(r"m_historyCapacity$")
    for f in cx.fns("addToHistoryWithoutDelivery"):
        isbegin = lambda v: isinstance(f.strip(v), Ins) and f.strip(v).op == "call" and (re.search(r"::c?begin$", f.strip(v).callee or "") is not None or
                                                                                      (re.search(r"::(front|operator\[\]|at)$", f.strip(v).callee or "") is not None and (len(f.strip(v).ops) < 2 or v_const(0)(f.strip(f.strip(v).ops[1]))))) and re.search(HI, f.path(f.strip(v).ops[0])) is not None
        rel = lambda i: i.op == "call" and call(r"::releaseToSharedChunk$")(i) and isbegin(i.ops[1])
        er = lambda i: i.op == "call" and re.search(r"vector::erase$", i.callee or "") is not None and re.search(HI, f.path(i.ops[0])) is not None and isbegin(i.ops[1])
        anyer = lambda i: i.op == "call" and re.search(r"vector::(erase|clear|pop_back|resize)$", i.callee or "") is not None and re.search(HI, f.path(i.ops[0])) is not None
        add = lambda i: i.op == "call" and re.search(r"vector::(push_back|emplace_back)$", i.callee or "") is not None and re.search(HI, f.path(i.ops[0])) is not None
        capz = lambda k, pol: (pol if isnull(k[2]) else None) if k[0] == "eq" and cap(k[1]) else None
        full = lambda k, pol: (not pol) if k[0] == "ult" and size(f)(k[1]) and cap(k[2]) else (pol if k[0] == "eq" and ((size(f)(k[1]) and cap(k[2])) or (size(f)(k[2]) and cap(k[1]))) else None)
        rows = table(f, dict(rel=rel, er=er, any=anyer, add=add), dict(none=capz, full=full))
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is not True or not r.ev, "without capacity nothing is kept", "none")
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is True or r.n("add") == 1, "the chunk is kept", "add")
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is True or r.lit.get("full") is not None, "a full history is told apart", "full")
        check_rows(cx, f, rows, lambda r: r.lit.get("none") is True or (r.n("rel") == 1 and r.n("er") == 1 and r.before("rel", "er") and r.before("er", "add")) == (r.lit.get("full") is True) , "the oldest chunk is given up first iff the history is full", "evict")
        check_rows(cx, f, rows, lambda r: r.n("any") == r.n("er") and r.n("rel") == r.n("er"), "nothing else is dropped", "only")
        for i in matching(f, add):
            cx.ob("arg1" in chunk_chain(f, i.ops[1]), f, "the given chunk is kept", "which", i)
    for rid in ("clearHistory", "cleanup"):
        for f in cx.fns(rid):
            rel = f.calls(r"::releaseToSharedChunk$")
            why = [covers_vec(f, c, c.ops[1], HI) for c in rel]
            cx.ob(any(w is None for w in why), f, "every kept chunk is given up (%s)" % why, rid + "/all")
            clr = [i for i in f.ins() if i.op == "call" and re.search(r"vector::clear$", i.callee or "") and re.search(HI, f.path(i.ops[0]))]
            w = f.search(None, is_ret, lambda i: i in clr)
            cx.ob(w is None and bool(clr), f, "the history is emptied", rid + "/clear", None, w)
            for c in clr:
                cx.ob(all(f.reaches(c, r) is None for r in rel), f, "emptied after giving up its chunks", rid + "/order", c)


@P.rule("R6", "a push hands the chunk to the queue once; what the queue evicts or refuses is released and reported", min=9)
def pusher(cx):
    qpush = call(r"VariantQueue::push$", (1, r"\.m_queue$"))
    for f in cx.fns("push"):
        rel = call(r"::releaseToSharedChunk$")
        rows = bool_rows(f, dict(push=qpush, rel=rel), dict(ev=opt_has(qpush)))
        check_rows(cx, f, rows, lambda r: r.n("push") == 1, "one push", "once")
        check_rows(cx, f, rows, lambda r: r.n("rel") == (1 if r.lit.get("ev") is True else 0), "an evicted or refused chunk is released", "release")
        for r in rows:
            v = res(f, f.ret_value(r.ret, r.st), r.st)
            k, pol = f.lit(v) if isinstance(v, Ins) else (None, None)
            ok = None
            if isinstance(v, Val) and v.k == "c":
                ok = bool(v.v) == (r.lit.get("ev") is not True)
            elif k is not None:
                x = res(f, k[1], r.st)
                if isinstance(x, Val) and x.k == "c":
                    ok = (bool(x.v & 1) == pol) == (r.lit.get("ev") is not True)
                else:
                    t = opt_has(qpush)(k, pol)
                    ok = t is False
            cx.ob(ok, f, "true iff nothing was evicted or refused", "ret", r.ret, r.trail)
        for p in matching(f, qpush):
            cx.ob("arg1" in chunk_chain(f, p.ops[2]), f, "the given chunk is pushed", "chunk", p)
        for c in matching(f, rel):
            cx.ob(any(f.root_of(c.ops[1]) is f.root_of(p.ops[0]) for p in matching(f, qpush)), f, "what is released came out of the queue", "rel-which", c)
    for f in cx.fns("lostAChunk"):
        on_all_returns(cx, f, store(r"m_queueHasLostChunks", v_const(1)), "the loss is flagged for the reader", "flag")


QT = {0: ("SpscFifo", "fifo"), 1: ("SpscSofi", "sofi"), 2: ("Mpmc\\w*Queue", "fifo"), 3: ("Mpmc\\w*Queue", "sofi")}


def by_type(f, n):
    """calls of concurrent queues reachable with m_type == n"""
    out = []

    def step(st, i):
        if i.op == "call" and (i.callee or "").startswith("iox::concurrent::"):
            st["c"] = i.id
        return None
    tys = [i for i in f.loads(r"m_type$")]
    if not tys:
        return None
    ids = {t.id for t in tys}

    def edge(st, k, pol):
        if k[0] == "eq" and isinstance(k[1], Ins) and (k[1].id in ids) and isinstance(k[2], Val) and k[2].k == "c":
            if (k[2].v == n) != pol:
                return False
        return None
    for r, st, tr in f.simulate({}, step, edge, phis=False):
        out.append(f.byid[st["c"]] if "c" in st else None)
    return out


@P.rule("R7", "each queue type uses the queue it was built with; non-overflowing types refuse, overflowing types evict", min=30)
def variant(cx):
    for op in ("push", "pop", "empty", "size", "capacity", "VariantQueue", "setCapacity"):
        for f in cx.fns("v_" + op):
            for n, (cls, kind) in QT.items():
                cs = by_type(f, n)
                if cs is None or (op == "setCapacity" and n == 0):
                    continue
                cx.ob(bool(cs) and all(c is not None and re.search(r"iox::concurrent::%s::" % cls, c.callee) for c in cs), f, "type %d works on %s" % (n, cls), "%s/%d" % (op, n))
                if op == "push" and n >= 2:
                    cx.ob(all(c is not None and c.callee.endswith("::tryPush" if kind == "fifo" else "::push") for c in cs), f, "type %d %s when full" % (n, "refuses" if kind == "fifo" else "evicts"), "push-kind/%d" % n)
    for f in cx.fns("v_push"):
        for c in [c for c in f.calls(r"iox::concurrent::\w+::(push|tryPush)$") if not f.path(c.ops[0]) == "arg0"]:
            # boolean result: has a value iff refused / evicted, and the value is the refused or evicted one
            some = [i for i in f.stores(r"^arg0\.m_hasValue$") if v_const(1)(f.strip(i.ops[0])) and f.reaches(c, i) is not None]
            req_some(cx, f, some, "a refused or evicted element is returned", "push-result")
            w = f.search_edge(holds(truth_of(v_is(c))), lambda i: i in some)
            cx.ob(w is None, f, "an accepted element is not returned", "push-accepted", c, w)
            w = f.search_edge(holds(truth_of(v_is(c)), False), is_ret, lambda i: i in some)
            cx.ob(w is None, f, "a refused or evicted element is returned", "push-refused", c, w)
            cp = [i for i in writes_to(f, r"^arg0\.m_data") if f.reaches(c, i) is not None]
            want = f.root_of(c.ops[2]) if len(c.ops) > 2 else Val("arg", 2)
            cx.ob(bool(cp) and all(f.root_of(src(i)) == want or f.root_of(src(i)) is want or (i.op == "call" and same_chunk(f, src(i), c.ops[2 if len(c.ops) > 2 else 1])) or (i.op == "store" and f.derives(i.ops[0], lambda x: x is want or x == want)) for i in cp), f, "the element returned is the one refused or evicted", "push-value", c)
