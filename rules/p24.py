import glob
import os
import re

from engine import build
from engine.core import Broken, Prop

P = Prop("P24")
P.explain = """
Effect analysis on the call graph of the whole data path (endpoints, ports, building blocks, chunk memory, synchronisation): from every
operation of the path all functions that may be called are collected, including those whose address is taken (callbacks); the functions
outside the program they end in are classified (heap, exception, lock, wait, system call) and compared with what the operation may do.
The reports of misuse through logger and error handler are not part of the path."""
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRV = os.path.join(ROOT, "drivers", "endpoints.cpp")


def units(*dirs):
    return [os.path.relpath(x, build.REPO) for d in dirs for x in sorted(glob.glob(os.path.join(build.REPO, d, "*.cpp")))]


S, H = "iceoryx_posh/source/", "iceoryx_hoofs/"
P.group("g", [DRV] + units(S + "popo", S + "popo/ports", S + "popo/building_blocks", S + "mepoo", S + "capro", H + "memory/source", H + "concurrent/*/source", H + "posix/sync/source", H + "posix/time/source", H + "time/source", H + "posix/design/source"), callgraph=True)
P.root("g", "notify", "iox::popo::ConditionNotifier::notify", min=0)

QUIET = {
    "Publisher": ("PublisherPortUser::(tryAllocateChunk|releaseChunk|tryGetPreviousChunk|isOffered)", "PublisherImpl::loan", "UntypedPublisherImpl::(loan|release)"),
    "Subscriber": ("SubscriberPortUser::(tryGetChunk|releaseChunk|hasNewChunks|hasLostChunksSinceLastCall|releaseQueuedChunks)", "SubscriberImpl::take", "UntypedSubscriberImpl::(take|release)"),
    "Client": ("ClientPortUser::(allocateRequest|releaseRequest|getResponse|releaseResponse|hasNewResponses|hasLostResponsesSinceLastCall|releaseQueuedResponses)", "ClientImpl::(loan|take)", "UntypedClientImpl::(loan|take|release)"),
    "Server": ("ServerPortUser::(getRequest|releaseRequest|allocateResponse|releaseResponse|hasNewRequests|hasLostRequestsSinceLastCall|releaseQueuedRequests)", "ServerImpl::(loan|take)", "UntypedServerImpl::(loan|take|release)"),
}
SEND = {
    "Publisher": ("PublisherPortUser::(sendChunk|hasSubscribers)", "PublisherImpl::publish", "UntypedPublisherImpl::publish"),
    "Client": ("ClientPortUser::sendRequest", "ClientImpl::send", "UntypedClientImpl::send"),
    "Server": ("ServerPortUser::sendResponse", "ServerImpl::send", "UntypedServerImpl::send"),
}
KIND = [
    ("heap", r"^(malloc|calloc|realloc|reallocarray|free|aligned_alloc|posix_memalign|memalign|valloc|strn?dup|v?asprintf|sbrk|brk|_Zn[wa]\w+|_Zd[la]\w+|_ZNSt7__cxx11\w+|_ZNSs\w+)$"),
    ("exception", r"^(__cxa_throw|__cxa_rethrow|__cxa_allocate_exception|_ZSt\d+__throw_\w+|_Unwind_RaiseException)$"),
    ("lock", r"^(pthread_(mutex|rwlock)_(lock|timedlock|clocklock|rdlock|wrlock|timed\w+|trylock)|pthread_spin_lock|mtx_(timed)?lock|f?lockf?|flock)$"),
    ("wait", r"^(nanosleep|usleep|sleep|clock_nanosleep|sched_yield|pthread_yield|thrd_sleep|sem_(wait|timedwait|clockwait)|pthread_cond_\w*wait|pthread_join|poll|ppoll|p?select|epoll_p?wait|sigwait\w*|wait(pid)?|pause|_ZNSt11this_thread\w*sleep\w*|_ZNSt18condition_variable4wait\w*|_ZNSt6thread\w+)$"),
    ("post", r"^sem_post$"),
    ("system", r"^(syscall|open(at)?(64)?|creat|close|p?(read|write)(v|64)?|l?stat(64)?|fstat(64)?|access|unlink|rename|mkdir|chmod|fchmod|mmap(64)?|munmap|mprotect|msync|shm_(open|unlink)|f?truncate(64)?|socket|bind|connect|listen|accept4?|send(to|msg)?|recv(from|msg)?|shutdown|[gs]etsockopt|mq_\w+|sem_(open|close|unlink|init|destroy)|pipe2?|fcntl|ioctl|dup2?|fork|vfork|exec\w+|system|kill|raise|pthread_(create|kill|cancel|setname_np)|signal|sigaction|get(pid|uid|gid|pw\w+|gr\w+)|fsync|fopen(64)?|fclose|f?printf|v?f?printf|f?puts|fput[cs]|putchar|fwrite|fread|fflush|_ZNSo\w+|_ZNSi\w+|_ZSt\w*ostream\w*|_ZNSt\d*basic_\w*stream\w*|_ZNSt13basic_filebuf\w*|acl_\w+)$"),
]
KIND = [(n, re.compile(r)) for n, r in KIND]
MAY = {"quiet": (), "send": ("lock", "wait", "post"), "post": ("post",)}
EDGE = re.compile(r"^iox::(log::|er::)")
WORD = {"heap": "uses no heap memory", "exception": "throws nothing", "lock": "takes no lock", "wait": "does not wait", "post": "signals no other thread", "system": "asks nothing of the operating system"}
PORT_LOCK = re.compile(r"^iox::popo::ThreadSafePolicy::")
PRODUCER = re.compile(r"^iox::popo::ChunkDistributor::")


def reach(cg, start, stop=lambda m: False):
    """mangled name -> (predecessor, location) of everything that may be called"""
    seen, todo = {}, [(r, None, None) for r in start]
    while todo:
        m, p, loc = todo.pop()
        if m in seen:
            continue
        seen[m] = (p, loc)
        d = cg.get(m)
        if d is None or EDGE.search(d["base"]) or EDGE.search(re.sub(r"^[\w:<>*& ]+ (?=iox::)", "", d["full"])) or stop(d):
            continue
        todo += [(e["m"], m, e.get("loc")) for e in d["out"] if e["k"] != "ind"]
    return seen


def chain(cg, seen, m):
    out = []
    while m is not None:
        p, loc = seen[m]
        f = loc[0] if loc else "?"
        f = f[len(build.REPO) + 1:] if f.startswith(build.REPO + "/") else f
        out.append("%s%s" % (cg[m]["full"][:160] if m in cg else m, " called at %s:%d" % (f, loc[1]) if loc else ""))
        m = p
    return out[::-1]


def wit(cg, seen, bad):
    ch = chain(cg, seen, bad[0]) if bad else None
    return place(ch), ch


def place(ch):
    """the last call on the chain that lies in /repo"""
    l = [x.split(" called at ")[1] for x in ch or () if " called at " in x and not re.search(r"called at (/usr|/opt)", x)]
    return l[-1] if l else None


def check(cx, cg, table, may, sort):
    for who, pats in sorted(table.items()):
        for p in pats:
            rx = re.compile(r"^iox::popo::%s" % p)
            starts = [m for m, d in cg.items() if rx.search(d["base"]) and "lambda" not in d["base"] and "$_" not in d["base"]]
            if not starts:
                raise Broken("no function %s" % p)
            for s in sorted(starts):
                seen = reach(cg, [s])
                name = cg[s]["full"]
                for kind, krx in KIND:
                    if kind in may:
                        continue
                    bad = sorted(m for m in seen if m not in cg and krx.search(m))
                    cx.ob(not bad, name, "%s (%s) %s%s" % (cg[s]["base"], sort, WORD[kind], ": " + bad[0] if bad else ""), "%s/%s/%s" % (sort, re.sub(r"^iox::popo::", "", cg[s]["base"]), kind), *wit(cg, seen, bad))
                if "lock" in may:
                    part = reach(cg, [s], lambda d: PORT_LOCK.search(d["base"]))
                    bad = sorted(m for m in part if m not in cg and dict(KIND)["lock"].search(m))
                    cx.ob(not bad, name, "%s takes only the lock of its port's queue list" % cg[s]["base"], "%s/%s/portlock" % (sort, re.sub(r"^iox::popo::", "", cg[s]["base"])), *wit(cg, part, bad))
                if "wait" in may:
                    part = reach(cg, [s], lambda d: PRODUCER.search(d["base"]))
                    bad = sorted(m for m in part if m not in cg and dict(KIND)["wait"].search(m))
                    cx.ob(not bad, name, "%s waits only in the distributor, for full queues" % cg[s]["base"], "%s/%s/waits" % (sort, re.sub(r"^iox::popo::", "", cg[s]["base"])), *wit(cg, part, bad))
                    hard = sorted(m for m in seen if m not in cg and dict(KIND)["wait"].search(m) and not re.search(r"sleep|yield", m))
                    cx.ob(not hard, name, "%s does not block on anybody%s" % (cg[s]["base"], ": " + hard[0] if hard else ""), "%s/%s/block" % (sort, re.sub(r"^iox::popo::", "", cg[s]["base"])), *wit(cg, seen, hard))


@P.rule("R1", "loaning, taking, releasing and asking for data use no heap, lock, wait, system call or exception", min=150)
def r1(cx):
    check(cx, cx.cgs["g"], QUIET, MAY["quiet"], "quiet")


@P.rule("R2", "sending takes the lock of the port's queue list and posts semaphores; it uses no heap, no other system call and no exception", min=40)
def r2(cx):
    check(cx, cx.cgs["g"], SEND, MAY["send"], "send")


@P.rule("R3", "answering a request does not wait for the client; a notification only posts", min=8)
def r3(cx):
    cg = cx.cgs["g"]
    check(cx, cg, {"Notifier": ("ConditionNotifier::notify",)}, MAY["post"], "notify")
    for s in sorted(m for m, d in cg.items() if re.search(r"^iox::popo::(ServerPortUser::sendResponse|UntypedServerImpl::send|ServerImpl::send)$", d["base"])):
        seen = reach(cg, [s])
        bad = sorted(m for m in seen if m not in cg and dict(KIND)["wait"].search(m))
        cx.ob(not bad, cg[s]["full"], "%s does not wait" % cg[s]["base"], "response/" + cg[s]["base"], *wit(cg, seen, bad))
