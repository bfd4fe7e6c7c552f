import os

from engine.core import Prop
from rules.lib import *

P = Prop("P22")
P.explain = """
Each function that makes or releases a resource is evaluated on its flow graph once per configuration and outcome of its system calls
(every call succeeding, each call failing with each errno): results and errno are inputs, memory is tracked through moves and copies, and
the whole path is decided by them. The events of the path (which call, with which flags, on which handle) and the final state of the
object and of the returned expected are compared with what the property says. Objects moved from are recognised by the value their
handle is left with, and their destructor is evaluated on that value."""
H = "iceoryx_hoofs/posix/"
FS = "iceoryx_hoofs/filesystem/source/filesystem.cpp"
D = r"iox::detail::"
OPQ = [r"^iox::ScopeGuardWithVariableCapacity::", r"^iox::storable_function::(?!operator\(\)|invoke)", r"^iox::detail::isValid", r"::(errnoToEnum|convertErrnoToFileLockError|sem_errno_to_enum)$"]
SRC = {"shm": ([H + "ipc/source/posix_shared_memory.cpp", FS], D + "PosixSharedMemory"), "map": ([H + "ipc/source/posix_memory_map.cpp", FS], D + "PosixMemoryMap"),
       "lock": ([H + "filesystem/source/file_lock.cpp", FS], "iox::FileLock"), "nsem": ([H + "sync/source/named_semaphore.cpp", FS], "iox::NamedSemaphore"),
       "usem": ([H + "sync/source/unnamed_semaphore.cpp"], "iox::UnnamedSemaphore"), "mtx": ([H + "sync/source/mutex.cpp"], "iox::mutex"),
       "uds": ([H + "ipc/source/unix_domain_socket.cpp"], "iox::UnixDomainSocket"), "mq": ([H + "ipc/source/message_queue.cpp"], "iox::MessageQueue")}
for g, (files, cls) in SRC.items():
    P.group(g, files, limit=120000, opaque=OPQ + ([r"^iox::detail::doesEnd", r"^iox::MessageQueue::sanitizeIpcChannelName$", r"^iox::detail::getSchedulerPriority"]))
    P.root(g, g + ".create", {"mtx": "iox::MutexBuilder", "uds": "iox::UnixDomainSocketBuilderNoPathPrefix"}.get(g, cls + "Builder") + "::create")
    P.root(g, g + ".dtor", cls + "::~" + cls.split("::")[-1])
    if g in ("shm", "map", "lock", "uds", "mq"):
        P.root(g, g + ".assign", cls + "::operator=")
P.group("sem", [H + "sync/source/semaphore_helper.cpp"], opaque=OPQ + [r"^iox::units::"])
for n in ("post", "wait", "try_wait", "timed_wait"):
    P.root("sem", "sem." + n, D + "sem_" + n)
for n in ("lock", "unlock", "try_lock"):
    P.root("mtx", "mtx." + n, "iox::mutex::%s_impl" % n)
P.root("mtx", "mtx.consistent", "iox::mutex::make_consistent")
P.group("obj", [H + "ipc/source/posix_shared_memory_object.cpp"], opaque=OPQ + [r"^iox::detail::Posix(SharedMemory|MemoryMap)Builder::create$", r"^iox::detail::Posix(SharedMemory|MemoryMap)::(Posix|~|hasOwnership|getHandle|get_file_handle|getBaseAddress|operator=)", r"^iox::registerSignalHandler", r"SignalGuard", r"get_size$", r"^iox::asStringLiteral"])
P.root("obj", "obj.create", r"iox::PosixSharedMemoryObjectBuilder::create")

M1 = 0xffffffff
M1L = 0xffffffffffffffff
C = {"open": call(r"^(iox_)?(ext_)?(shm_)?open$"), "unlink": call(r"^(iox_)?(shm_|sem_|mq_)?unlink$|^remove$"), "trunc": call(r"^(iox_)?ftruncate$"),
     "close": call(r"^(iox_)?(shm_|ext_|mq_|sem_)?close$|^iox_closesocket$"), "flock": call(r"^(iox_)?flock$"), "valid": call(r"^iox::detail::isValid"), "empty": call(r"string::empty$"),
     "mmap": call(r"^(iox_)?mmap$"), "munmap": call(r"^(iox_)?munmap$"), "semopen": call(r"^(iox_)?sem_open(_ext)?$"), "seminit": call(r"^(iox_)?sem_init$"), "semdestroy": call(r"^(iox_)?sem_destroy$"),
     "socket": call(r"^(iox_)?socket$"), "bind": call(r"^(iox_)?bind$"), "connect": call(r"^(iox_)?connect$"), "mqopen": call(r"^(iox_)?mq_open4?$"),
     "sigbus": call(r"^iox::registerSignalHandler"), "umask": call(r"^umask$"), "name": call(r"sanitizeIpcChannelName$")}
TAG = r"^arg0\.m_store\.data\.m_type_index$"
OK = {"open": (7, 0), "trunc": (0, 0), "close": (0, 0), "unlink": (0, 0), "flock": (0, 0), "valid": (1, 0), "empty": (0, 0), "mmap": (0x7000, 0), "munmap": (0, 0), "semopen": (0x5000, 0), "seminit": (0, 0),
      "semdestroy": (0, 0), "socket": (7, 0), "bind": (0, 0), "connect": (0, 0), "mqopen": (7, 0), "umask": (18, 0)}
ERR = {"open": M1, "trunc": M1, "close": M1, "unlink": M1, "flock": M1, "mmap": M1L, "munmap": M1, "semopen": 0, "seminit": M1, "semdestroy": M1, "socket": M1, "bind": M1, "connect": M1, "mqopen": M1, "valid": 0}
ERRNOS = (1, 2, 9, 11, 12, 13, 17, 22, 23, 24, 28, 36, 38, 105, 111)


def script(fields, **kw):
    d = {k: [v] for k, v in OK.items()}
    d.update(fields)
    d.update(kw)
    return d


def sysf(f, vars, extra=None, events=None, args=None, lits=None):
    rec = {"open": [1], "trunc": [0, 1], "close": [0], "flock": [0, 1], "mmap": [0, 1, 2, 3, 4, 5], "munmap": [0, 1], "semopen": [1, 2, 3], "seminit": [1, 2], "socket": [0, 1], "bind": [0], "connect": [0], "mqopen": [1]}
    rec.update(args or {})
    c = dict(C)
    c.update(extra or {})
    return Sys(f, c, vars, rec, events, lits)


def run(cx, f, s, asg, what):
    rows = s.run(asg)

    def want(cond, text, key):
        check_rows(cx, f, rows, cond, "%s: %s" % (what, text), key)
    want.rows = rows
    return want


def evs(r, *names):
    return [e for e in r.ev if e[0] in names]


def noted(r, *names):
    return [e[1:] for e in r.ev if e[0] in names]


def product2(a, b):
    return [(x, y) for x in a for y in b]


def fresh(v):
    """a value of the object, not what was there before"""
    return v if isinstance(v, int) else None


@P.rule("R1", "shared memory is opened, sized and owned as its open mode says; whatever fails is reported and nothing is left behind", min=80)
def _(cx):
    OM, AM = cx.enum("iox::OpenMode"), cx.enum("iox::AccessMode")
    bits = {"ReadOnly": 0, "ReadWrite": 2, "WriteOnly": 1}
    for f in cx.fns("shm.create"):
        s = sysf(f, {"mode": r"^arg1\.m_openMode$", "access": r"^arg1\.m_accessMode$", "tag": TAG, "size": r"^arg1\.m_size$", "own": r"^arg0.*\.m_hasOwnership$", "fd": r"^arg0.*\.m_handle$"})
        tag = lambda r: s.final(r, "tag")
        for mn, m in OM.items():
            creates = mn != "OpenExisting"
            for an, a in AM.items():
                if an not in bits:
                    continue
                F = {"mode": m, "access": a, "size": 4711}
                w = run(cx, f, s, script(F), "%s, %s" % (mn, an))
                if creates and an == "ReadOnly":
                    w(lambda r: tag(r) == 1 and not evs(r, "open"), "memory cannot be created read-only", "shm.readonly")
                    continue
                flags = bits[an] | (192 if creates else 0)
                w(lambda r: tag(r) == 0 and s.final(r, "fd") == 7, "the memory opened is handed out", "shm.ok")
                w(lambda r: noted(r, "open") == [(flags,)], "opened once with the access asked for%s" % (", exclusively created" if creates else ", not created"), "shm.flags")
                w(lambda r: noted(r, "trunc") == ([(7, 4711)] if creates else []), "its creator, and nobody else, gives it the size asked for", "shm.size")
                w(lambda r: s.final(r, "own") == int(creates), "only its creator owns the memory", "shm.own")
                w(lambda r: not evs(r, "close") and [e[0] for e in evs(r, "unlink", "open")] == (["unlink", "open"] if mn == "PurgeAndCreate" else ["open"]), "an existing memory is removed only if asked for", "shm.purge")
                for n in ERRNOS:
                    if mn == "OpenOrCreate" and n == 17:
                        continue
                    run(cx, f, s, script(F, open=[(M1, n)]), "%s, open fails with %d" % (mn, n))(lambda r: tag(r) == 1 and not evs(r, "trunc", "close") and len(evs(r, "open")) == 1, "reported, nothing done", "shm.fail")
                if creates:
                    run(cx, f, s, script(F, trunc=[(M1, 12)]), "%s, ftruncate fails" % mn)(lambda r: tag(r) == 1 and noted(r, "close") == [(7,)] and [e[0] for e in evs(r, "trunc", "unlink")][-2:] == ["trunc", "unlink"], "reported, closed and removed again", "shm.truncfail")
                if mn == "OpenOrCreate":
                    w = run(cx, f, s, script(F, open=[(M1, 17), (8, 0)]), "OpenOrCreate of an existing memory")
                    w(lambda r: tag(r) == 0 and s.final(r, "fd") == 8 and s.final(r, "own") == 0 and not evs(r, "trunc", "close", "unlink"), "opened, not owned, not resized", "shm.existing")
                    w(lambda r: noted(r, "open") == [(flags,), (bits[an],)], "opened without creating it", "shm.flags")
                    run(cx, f, s, script(F, open=[(M1, 17), (M1, 2)]), "OpenOrCreate, both fail")(lambda r: tag(r) == 1 and not evs(r, "trunc", "close", "unlink"), "reported", "shm.fail")
        F = {"mode": OM["PurgeAndCreate"], "access": AM["ReadWrite"], "size": 4711}
        run(cx, f, s, script(F, valid=[(0, 0)]), "invalid name")(lambda r: tag(r) == 1 and not evs(r, "open", "unlink"), "refused", "shm.name")
        run(cx, f, s, script(F, empty=[(1, 0)]), "empty name")(lambda r: tag(r) == 1 and not evs(r, "open", "unlink"), "refused", "shm.name")


HND = {"shm": "m_handle", "map": "m_baseAddress", "lock": "m_fd", "nsem": "m_handle", "uds": "m_sockfd", "mq": "m_mqDescriptor"}


@P.rule("R2", "what an object holds is released exactly once: by its destructor or before another is moved in, not by the object moved from; names are removed by their owner only", min=40)
def _(cx):
    side = cx.enum("iox::PosixIpcChannelSide")

    def released(r, g, fd, own, ok=True):
        """the handle fd was released, and the name too iff own"""
        if g == "map":
            return noted(r, "munmap") == [(fd, 4711)]
        if g == "lock" and noted(r, "flock") not in ([(fd, 8)], []):
            return False
        un = len(evs(r, "unlink"))
        return noted(r, "close") == [(fd,)] and (un == (1 if own or g == "lock" else 0) or (not ok and un == 0))

    def fields(i, g):
        v = {"fd%d" % i: r"^arg%d\.%s$" % (i, HND[g])}
        if g in ("shm", "nsem"):
            v["own%d" % i] = r"^arg%d\.m_hasOwnership$" % i
        if g in ("uds", "mq"):
            v["own%d" % i] = r"^arg%d\.m_channelSide$" % i
        if g == "map":
            v["len%d" % i] = r"^arg%d\.m_length$" % i
        return v

    own = lambda g, o: {"own": side["SERVER"] if o else side["CLIENT"]} if g in ("uds", "mq") else {"own": int(o)}
    inv = {}
    for g in ("shm", "map", "lock", "uds", "mq"):
        for f in cx.fns(g + ".assign"):
            ren = lambda i: i.op == "call" and re.search(r"string::(operator=|assign)$", i.callee or "") is not None and re.search(r"^arg0\.m_(name|fileLockPath)$", f.path(i.ops[0])) is not None
            slf = equals(lambda v: v == Val("arg", 0), lambda v: v == Val("arg", 1))
            slf.stable = True
            s = sysf(f, dict(fields(0, g), **fields(1, g)), events={"rename": ren}, lits={"self": slf})
            for o in (True, False):
                for o2 in (True, False):
                    F = {"fd0": 7, "fd1": 9, "own0": own(g, o)["own"], "own1": own(g, o2)["own"], "len0": 4711, "len1": 4712}
                    w = run(cx, f, s, script(F), "move, owner %d to %d" % (o2, o))
                    oth = lambda p: lambda r: r.lit.get("self") is True or p(r)
                    w(oth(lambda r: released(r, g, 7, o)), "what the target held is released", "move.release")
                    w(oth(lambda r: s.final(r, "fd0") == 9 and (g in ("map", "lock") or s.final(r, "own0") == F["own1"]) and (g != "map" or s.final(r, "len0") == 4712)), "the target holds what the source held", "move.take")
                    w(oth(lambda r: fresh(s.final(r, "fd1")) not in (None, 9, 7)), "the source holds nothing", "move.empty")
                    if g == "shm":
                        w(oth(lambda r: s.final(r, "own1") == 0), "the source owns nothing", "move.noown")
                    w(lambda r: r.lit.get("self") is not True or (not evs(r, "close", "unlink", "munmap", "flock") and s.final(r, "fd0") == 7), "moving to itself changes nothing", "move.self")
                    w(oth(lambda r: not evs(r, "rename") or not evs(r, "unlink") or [e[0] for e in evs(r, "rename", "unlink")][0] == "unlink"), "the name removed is the one held before", "move.name")
                    for r in w.rows:
                        if r.lit.get("self") is not True:
                            inv.setdefault(g, set()).add(s.final(r, "fd1"))
            if g in ("shm", "uds", "mq", "lock"):
                F = {"fd0": 7, "fd1": 9, "own0": own(g, True)["own"], "own1": own(g, True)["own"]}
                run(cx, f, s, script(F, close=[(M1, 5)]), "move, close fails")(lambda r: r.lit.get("self") is True or (len(evs(r, "close")) == 1 and s.final(r, "fd0") == 9), "closed once, the target holds what the source held", "move.closefail")
            for e in inv.get(g, ()):
                F = {"fd0": e, "fd1": 9, "own0": own(g, False)["own"], "own1": own(g, True)["own"], "len0": 0, "len1": 4712}
                run(cx, f, s, script(F), "move into an object moved from")(lambda r: r.lit.get("self") is True or (not evs(r, "close", "unlink", "munmap", "flock") and s.final(r, "fd0") == 9), "nothing is released", "move.again")
    for g in ("shm", "map", "lock", "nsem", "uds", "mq"):
        for f in cx.fns(g + ".dtor"):
            s = sysf(f, fields(0, g))
            for o in (True, False):
                F = {"fd0": 7, "own0": own(g, o)["own"], "len0": 4711}
                run(cx, f, s, script(F), "owner %d" % o)(lambda r: released(r, g, 7, o), "what the object held is released", "dtor.release")
                for e in inv.get(g, ()) if g != "nsem" else ():
                    if g != "shm" or not o:
                        F = {"fd0": e, "own0": own(g, o)["own"], "len0": 0}
                        run(cx, f, s, script(F), "moved from")(lambda r: not evs(r, "close", "unlink", "munmap", "flock"), "nothing is released", "dtor.empty")
            if g != "map":
                run(cx, f, s, script({"fd0": 7, "own0": own(g, True)["own"]}, close=[(M1, 5)]), "close fails")(lambda r: released(r, g, 7, True, False), "closed once", "dtor.closefail")
    for g, flag, ev in (("usem", "m_destroyHandle", "semdestroy"), ("mtx", "m_isDestructable", "mtxdestroy")):
        for f in cx.fns(g + ".dtor"):
            s = sysf(f, {"flag": r"^arg0\.%s$" % flag}, {"mtxdestroy": call(r"^(iox_)?pthread_mutex_destroy$")})
            for v in (0, 1):
                run(cx, f, s, script({"flag": v}, mtxdestroy=[(0, 0)]), "initialised %d" % v)(lambda r: len(evs(r, ev)) == v, "destroyed iff it was initialised", "dtor.destroy")


@P.rule("R3", "file locks, sockets, queues, semaphores and mappings are handed out iff every call that makes them succeeded; otherwise nothing stays open", min=60)
def _(cx):
    OM, AM = cx.enum("iox::OpenMode"), cx.enum("iox::AccessMode")
    side = cx.enum("iox::PosixIpcChannelSide")
    for f in cx.fns("lock.create"):
        s = sysf(f, {"tag": TAG, "fd": r"^arg0.*\.m_fd$"})
        tag = lambda r: s.final(r, "tag")
        w = run(cx, f, s, script({}), "lock")
        w(lambda r: tag(r) == 0 and s.final(r, "fd") == 7 and not evs(r, "close", "unlink"), "handed out", "lock.ok")
        w(lambda r: noted(r, "open") == [(64,)] and noted(r, "flock") == [(7, 6)], "locked exclusively, without waiting, on the file opened", "lock.how")
        for n in ERRNOS:
            run(cx, f, s, script({}, open=[(M1, n)]), "open fails with %d" % n)(lambda r: tag(r) == 1 and not evs(r, "flock", "close"), "reported", "lock.open")
            run(cx, f, s, script({}, flock=[(M1, n)]), "flock fails with %d" % n)(lambda r: tag(r) == 1 and noted(r, "close") == [(7,)], "reported, the file is closed again", "lock.held")
            run(cx, f, s, script({}, flock=[(M1, n)]), "flock fails with %d" % n)(lambda r: not evs(r, "unlink"), "the file of the holder is not removed", "lock.keep")
        run(cx, f, s, script({}, valid=[(0, 0)]), "invalid name")(lambda r: tag(r) == 1 and not evs(r, "open"), "refused", "lock.name")
    for f in cx.fns("map.create"):
        s = sysf(f, {"tag": TAG, "hint": r"^arg1\.m_baseAddressHint$", "length": r"^arg1\.m_length$", "access": r"^arg1\.m_accessMode$", "flags": r"^arg1\.m_flags$", "fd": r"^arg1\.m_fileDescriptor$", "offset": r"^arg1\.m_offset$",
                     "base": r"^arg0.*\.m_baseAddress$", "len": r"^arg0.*\.m_length$"})
        for an, p in (("ReadOnly", 1), ("ReadWrite", 3), ("WriteOnly", 2)):
            F = {"hint": 0x6000, "length": 4711, "access": AM[an], "flags": 1, "fd": 7, "offset": 16}
            w = run(cx, f, s, script(F), "map %s" % an)
            w(lambda r: s.final(r, "tag") == 0 and s.final(r, "base") == 0x7000 and s.final(r, "len") == 4711 and not evs(r, "munmap"), "the mapping made is handed out with its length", "map.ok")
            w(lambda r: noted(r, "mmap") == [(0x6000, 4711, p, 1, 7, 16)], "mapped as configured", "map.how")
            for n in ERRNOS:
                run(cx, f, s, script(F, mmap=[(M1L, n)]), "mmap fails with %d" % n)(lambda r: s.final(r, "tag") == 1, "reported", "map.fail")
    for f in cx.fns("uds.create"):
        fit = lambda k, pol: None
        s = sysf(f, {"tag": TAG, "side": r"^arg1\.m_channelSide$", "fd": r"^arg0.*\.m_sockfd$", "max": r"^arg1\.m_maxMsgSize$"}, {"len": call(r"iox::string::size$")})
        for sn in ("SERVER", "CLIENT"):
            act = "bind" if sn == "SERVER" else "connect"
            F = {"side": side[sn], "max": 100}
            w = run(cx, f, s, script(F, len=[(20, 0)]), sn)
            w(lambda r: s.final(r, "tag") == 0 and s.final(r, "fd") == 7 and not evs(r, "close"), "the socket is handed out", "uds.ok")
            w(lambda r: noted(r, "bind", "connect") == [(7,)] and evs(r, act), "bound or connected as its side says", "uds.how")
            for n in ERRNOS:
                run(cx, f, s, script(F, len=[(20, 0)], socket=[(M1, n)]), "%s, socket fails with %d" % (sn, n))(lambda r: s.final(r, "tag") == 1 and not evs(r, "bind", "connect", "close"), "reported", "uds.socket")
                run(cx, f, s, script(F, len=[(20, 0)], **{act: [(M1, n)]}), "%s, %s fails with %d" % (sn, act, n))(lambda r: s.final(r, "tag") == 1 and noted(r, "close") == [(7,)], "reported, the socket is closed", "uds.fail")
            if sn == "CLIENT":
                run(cx, f, s, script(F, len=[(20, 0)], connect=[(M1, 111)]), "a failing client")(lambda r: not evs(r, "unlink"), "does not remove the name of the server", "uds.name")
    for f in cx.fns("mq.create"):
        s = sysf(f, {"tag": TAG, "side": r"^arg1\.m_channelSide$", "fd": r"^arg0.*\.m_mqDescriptor$", "max": r"^arg1\.m_maxMsgSize$"})
        for sn in ("SERVER", "CLIENT"):
            F = {"side": side[sn], "max": 100}
            good = lambda r: evs(r, "mqopen")
            w = run(cx, f, s, script(F), sn)
            w(lambda r: not good(r) or (s.final(r, "tag") == 0 and s.final(r, "fd") == 7 and not evs(r, "close")), "the queue is handed out", "mq.ok")
            w(lambda r: not good(r) or noted(r, "mqopen") == [(66 if sn == "SERVER" else 2,)], "created by the receiving side only", "mq.how")
            w(lambda r: good(r) or s.final(r, "tag") == 1, "an invalid name is refused", "mq.name")
            w(lambda r: sn == "SERVER" or not evs(r, "unlink"), "a client does not remove the queue of the server", "mq.keep")
            cx.ob(any(good(r) for r in w.rows), f, "a queue is opened", "mq.some")
            for n in ERRNOS:
                run(cx, f, s, script(F, mqopen=[(M1, n)]), "%s, mq_open fails with %d" % (sn, n))(lambda r: s.final(r, "tag") == 1, "reported", "mq.fail")


@P.rule("R4", "a named semaphore is opened or created as its mode says, with its initial value; owned by its creator only; failures are reported and the optional stays empty", min=30)
def _(cx):
    OM = cx.enum("iox::OpenMode")
    for f in cx.fns("nsem.create"):
        v = {"tag": TAG, "mode": r"^arg1\.m_openMode$", "value": r"^arg1\.m_initialValue$", "has": r"^arg2\.m_hasValue$", "hnd": r"^arg2\.m_data.*m_handle$", "own": r"^arg2\.m_data.*m_hasOwnership$"}
        s = sysf(f, v, {"reset": call(r"NamedSemaphore::~NamedSemaphore$")})
        tag = lambda r: s.final(r, "tag")
        full = lambda r, h, o: tag(r) == 0 and s.final(r, "has") == 1 and s.final(r, "hnd") == h and s.final(r, "own") == o
        none = lambda r: tag(r) == 1 and s.final(r, "has") == 0
        for (mn, m), val in product2(OM.items(), (3, 0)):
            F = {"mode": m, "value": val, "has": 0}
            w = run(cx, f, s, script(F), mn)
            op = {"OpenExisting": [(0, None, None)], "OpenOrCreate": [(0, None, None)], "ExclusiveCreate": None, "PurgeAndCreate": None}[mn]
            if op:
                w(lambda r: full(r, 0x5000, 0) and [x[0] for x in noted(r, "semopen")] == [0], "an existing semaphore is opened, not owned", "nsem.open")
            else:
                w(lambda r: full(r, 0x5000, 1) and [(x[0], x[2]) for x in noted(r, "semopen")] == [(192, val)], "created exclusively with its initial value, and owned", "nsem.create")
            w(lambda r: [e[0] for e in evs(r, "unlink", "semopen")] == (["unlink", "semopen"] if mn == "PurgeAndCreate" else ["semopen"]), "an existing semaphore is removed only if asked for", "nsem.purge")
            for n in ERRNOS:
                if op and n == 2:
                    continue
                run(cx, f, s, script(F, semopen=[(0, n)]), "%s, sem_open fails with %d" % (mn, n))(none, "reported", "nsem.fail")
            if mn == "OpenExisting":
                run(cx, f, s, script(F, semopen=[(0, 2)]), "OpenExisting, none exists")(none, "reported, not created", "nsem.none")
            if mn == "OpenOrCreate":
                w = run(cx, f, s, script(F, semopen=[(0, 2), (0x5001, 0)]), "OpenOrCreate, none exists")
                w(lambda r: full(r, 0x5001, 1) and [x[0] for x in noted(r, "semopen")][-1] in (64, 192) and noted(r, "semopen")[-1][2] == val, "created with its initial value, and owned", "nsem.create")
                for n in ERRNOS:
                    run(cx, f, s, script(F, semopen=[(0, 2), (0, n)]), "OpenOrCreate, creation fails with %d" % n)(none, "reported", "nsem.fail")
            if mn == "PurgeAndCreate":
                run(cx, f, s, script(F, unlink=[(M1, 13)]), "PurgeAndCreate, removal fails")(none, "reported", "nsem.fail")
            run(cx, f, s, script(F, valid=[(0, 0)]), "%s, invalid name" % mn)(lambda r: none(r) and not evs(r, "semopen", "unlink"), "refused", "nsem.name")
            run(cx, f, s, script(dict(F, value=0x80000000)), "%s, value too large" % mn)(lambda r: none(r) and not evs(r, "semopen", "unlink"), "refused", "nsem.value")
    for f in cx.fns("usem.create"):
        s = sysf(f, {"tag": TAG, "ipc": r"^arg1\.m_isInterProcessCapable$", "value": r"^arg1\.m_initialValue$", "has": r"^arg2\.m_hasValue$", "own": r"^arg2\.m_data.*m_destroyHandle$"})
        for ipc, val in product2((0, 1), (3, 0)):
            F = {"ipc": ipc, "value": val, "has": 0}
            run(cx, f, s, script(F), "unnamed, inter process %d" % ipc)(lambda r: s.final(r, "tag") == 0 and s.final(r, "has") == 1 and s.final(r, "own") == 1 and noted(r, "seminit") == [(ipc, val)] and not evs(r, "semdestroy"), "created with its initial value", "usem.ok")
            for n in ERRNOS:
                run(cx, f, s, script(F, seminit=[(M1, n)]), "sem_init fails with %d" % n)(lambda r: s.final(r, "tag") == 1 and s.final(r, "has") == 0 and not evs(r, "semdestroy"), "reported, the optional stays empty", "usem.fail")
        run(cx, f, s, script({"ipc": 1, "value": 0x80000000, "has": 0}), "unnamed, value too large")(lambda r: s.final(r, "tag") == 1 and s.final(r, "has") == 0 and not evs(r, "seminit"), "refused", "usem.value")


@P.rule("R5", "semaphore and mutex operations report success iff the system call did what was asked; a timeout, a taken lock and a dead owner are told apart", min=40)
def _(cx):
    W = cx.enum("iox::SemaphoreWaitState")
    VAL = r"^arg0\.m_store\.data\.m_storage(\.data)?$"
    for n, rx, h in (("post", r"^(iox_)?sem_post$", 1), ("wait", r"^(iox_)?sem_wait$", 1), ("try_wait", r"^(iox_)?sem_trywait$", 1), ("timed_wait", r"^(iox_)?sem_timedwait$", 1)):
        for f in cx.fns("sem." + n):
            s = sysf(f, {"tag": TAG, "val": VAL}, {"op": call(rx)}, args={"op": [0]})
            once = lambda r: len(evs(r, "op")) == 1 and noted(r, "op")[0][0] == repr(Val("arg", 1))
            w = run(cx, f, s, script({}, op=[(0, 0)]), n)
            w(lambda r: s.final(r, "tag") == 0 and once(r), "done once, on this semaphore", "sem.ok")
            if n == "try_wait":
                w(lambda r: s.final(r, "val") == 1, "taken", "sem.value")
                run(cx, f, s, script({}, op=[(M1, 11)]), "try_wait of a semaphore at zero")(lambda r: s.final(r, "tag") == 0 and s.final(r, "val") == 0, "not taken", "sem.value")
            if n == "timed_wait":
                w(lambda r: s.final(r, "val") == W["NO_TIMEOUT"], "no timeout", "sem.value")
                run(cx, f, s, script({}, op=[(M1, 110)]), "timed_wait times out")(lambda r: s.final(r, "tag") == 0 and s.final(r, "val") == W["TIMEOUT"], "timeout", "sem.value")
            for e in (22, 75, 9, 38, 13):
                run(cx, f, s, script({}, op=[(M1, e)]), "%s fails with %d" % (n, e))(lambda r: s.final(r, "tag") == 1, "reported", "sem.fail")
    LE, TE, TL = cx.enum("iox::LockError"), cx.enum("iox::TryLockError"), cx.enum("iox::TryLock")
    for n, rx in (("lock", r"^(iox_)?pthread_mutex_lock$"), ("unlock", r"^(iox_)?pthread_mutex_unlock$"), ("try_lock", r"^(iox_)?pthread_mutex_trylock$")):
        for f in cx.fns("mtx." + n):
            s = sysf(f, {"tag": TAG, "val": VAL, "bad": r"^arg1\.m_hasInconsistentState$"}, {"op": call(rx)}, args={"op": [0]})
            w = run(cx, f, s, script({"bad": 0}, op=[(0, 0)]), n)
            w(lambda r: s.final(r, "tag") == 0 and len(evs(r, "op")) == 1 and s.final(r, "bad") == 0, "done once", "mtx.ok")
            if n == "try_lock":
                w(lambda r: s.final(r, "val") == TL["LOCK_SUCCEEDED"], "locked", "mtx.value")
                run(cx, f, s, script({"bad": 0}, op=[(16, 0)]), "try_lock of a locked mutex")(lambda r: s.final(r, "tag") == 0 and s.final(r, "val") == TL["FAILED_TO_ACQUIRE_LOCK"], "not locked", "mtx.value")
            for e in (1, 11, 22, 35, 95):
                run(cx, f, s, script({"bad": 0}, op=[(e, 0)]), "%s fails with %d" % (n, e))(lambda r: s.final(r, "tag") == 1 and s.final(r, "bad") == 0 and s.final(r, "val") != (LE if n == "lock" else TE).get("LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED", -1) or n == "unlock" and s.final(r, "tag") == 1, "reported", "mtx.fail")
            if n != "unlock":
                E = (LE if n == "lock" else TE)["LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED"]
                run(cx, f, s, script({"bad": 0}, op=[(130, 0)]), "%s, the owner died" % n)(lambda r: s.final(r, "tag") == 1 and s.final(r, "val") == E and s.final(r, "bad") == 1, "reported and remembered", "mtx.dead")
    for f in cx.fns("mtx.consistent"):
        s = sysf(f, {"bad": r"^arg0\.m_hasInconsistentState$"}, {"op": call(r"^(iox_)?pthread_mutex_consistent$")})
        run(cx, f, s, script({"bad": 1}, op=[(0, 0)]), "inconsistent")(lambda r: len(evs(r, "op")) == 1 and s.final(r, "bad") == 0, "made consistent", "mtx.consistent")
        run(cx, f, s, script({"bad": 1}, op=[(22, 0)]), "inconsistent, call fails")(lambda r: s.final(r, "bad") == 1, "still inconsistent", "mtx.consistent")
        run(cx, f, s, script({"bad": 0}, op=[(0, 0)]), "consistent")(lambda r: not evs(r, "op"), "nothing to do", "mtx.consistent")


@P.rule("R6", "a mutex is handed out only with all its attributes set as configured; failures are reported, the optional stays empty, the attributes are released", min=14)
def _(cx):
    A = r"^(iox_)?pthread_mutexattr_%s$"
    names = {"ainit": A % "init", "pshared": A % "setpshared", "type": A % "settype", "protocol": A % "setprotocol", "ceiling": A % "setprioceiling", "robust": A % "setrobust", "init": r"^(iox_)?pthread_mutex_init$", "adestroy": A % "destroy", "destroy": r"^(iox_)?pthread_mutex_destroy$"}
    PI = cx.enum("iox::MutexPriorityInheritance")
    for f in cx.fns("mtx.create"):
        s = sysf(f, {"tag": TAG, "ipc": r"^arg1\.m_is_inter_process_capable$", "beh": r"^arg1\.m_lock_behavior$", "pi": r"^arg1\.m_priority_inheritance$", "hasc": r"^arg1\.m_priority_ceiling\.m_hasValue$", "ceil": r"^arg1\.m_priority_ceiling\.m_data",
                     "rob": r"^arg1\.m_thread_termination_behavior$", "has": r"^arg2\.m_hasValue$", "dest": r"^arg2\.m_data.*m_isDestructable$"}, {k: call(v) for k, v in names.items()}, args={k: [1] for k in ("pshared", "type", "protocol", "ceiling", "robust")})
        good = {k: [(0, 0)] for k in names}
        for ipc in (0, 1):
            for pn, pi in PI.items():
                for hc in (0, 1):
                    F = {"ipc": ipc, "beh": 2, "pi": pi, "hasc": hc, "ceil": 9, "rob": 1, "has": 0}
                    w = run(cx, f, s, script(F, **good), "mutex, inter process %d, %s, ceiling %d" % (ipc, pn, hc))
                    w(lambda r: s.final(r, "tag") == 0 and s.final(r, "has") == 1 and s.final(r, "dest") == 1 and not evs(r, "destroy"), "handed out", "mutex.ok")
                    ceil = [(9,)] if hc and pn == "PROTECT" else []
                    w(lambda r: noted(r, "pshared") == [(ipc,)] and noted(r, "type") == [(2,)] and noted(r, "protocol") == [(pi,)] and noted(r, "robust") == [(1,)] and noted(r, "ceiling") == ceil, "with the attributes configured", "mutex.attr")
                    w(lambda r: [e[0] for e in evs(r, "ainit", "init", "adestroy")] == ["ainit", "init", "adestroy"] and all(r.ev.index(e) < r.ev.index(("init",)) for e in evs(r, "pshared", "type", "protocol", "robust", "ceiling")), "set before the mutex is initialised", "mutex.order")
        F = {"ipc": 1, "beh": 2, "pi": PI["PROTECT"], "hasc": 1, "ceil": 9, "rob": 1, "has": 0}
        for n in ("ainit", "pshared", "type", "protocol", "ceiling", "robust", "init"):
            for e in (1, 11, 12, 22, 38, 95):
                w = run(cx, f, s, script(F, **dict(good, **{n: [(e, 0)]})), "%s fails with %d" % (n, e))
                w(lambda r: s.final(r, "tag") == 1 and s.final(r, "has") == 0 and not evs(r, "destroy"), "reported, the optional stays empty", "mutex.fail")
                w(lambda r: n == "ainit" or len(evs(r, "adestroy")) == 1, "the attributes are released", "mutex.leak")
        run(cx, f, s, script(dict(F, has=1), **good), "mutex, optional in use")(lambda r: s.final(r, "tag") == 1 and not evs(r, "init", "ainit"), "refused", "mutex.again")


@P.rule("R7", "a shared memory object maps all of a memory at least as large as asked for, with the access asked for; its creator zeroes exactly what was asked for, nobody else does", min=20)
def _(cx):
    OM, AM = cx.enum("iox::OpenMode"), cx.enum("iox::AccessMode")
    PROT = {"ReadOnly": 1, "ReadWrite": 3}
    lay = layout(cx.fns("shm.create") + cx.fns("map.create"))
    SB, MB = "iox::detail::PosixSharedMemoryBuilder", "iox::detail::PosixMemoryMapBuilder"
    for f in cx.fns("obj.create"):
        zero = lambda i: i.op == "call" and re.search(r"^(llvm\.)?memset", i.callee or "") is not None and not isinstance(f.strip(i.ops[2]), Val)
        pick = lambda n: call(r"^iox::detail::%s$" % n)
        s = sysf(f, {"tag": TAG, "mode": r"^arg1\.m_openMode$", "access": r"^arg1\.m_accessMode$", "size": r"^arg1\.m_memorySizeInBytes$", "hint": r"^arg1\.m_baseAddressHint\.m_hasValue$", "perm": r"^arg1\.m_permissions"},
                 {"getsize": call(r"get_size$"), "sigfail": call(r"expected::has_error$"), "mkshm": pick("PosixSharedMemoryBuilder::create"), "mkmap": pick("PosixMemoryMapBuilder::create"), "owner": pick("PosixSharedMemory::hasOwnership"),
                  "handle": pick("PosixSharedMemory::(getHandle|get_file_handle)"), "addr": pick("PosixMemoryMap::getBaseAddress"), "lock": call(r"^pthread_mutex_lock$"), "take": lambda i: i.op == "call" and re.search(r"^iox::detail::Posix(SharedMemory|MemoryMap)::Posix", i.callee or "") is not None},
                 {"zero": zero}, {"zero": [0, 1, 2]})
        tags = {}
        for i in f.ins():
            if i.op == "load" and i.ty == "i64":
                l = s.loc(i.ops[0], {})
                if l:
                    tags.setdefault(l[0], set()).add(l[1])

        def made(cls, fields, ok):
            def g(sim, st, i):
                b = sim.loc(i.ops[1], st)
                vs = []
                for n in fields:
                    v = sim.read(st, (b[0], b[1] + lay[(cls, n)])) if b else None
                    vs.append(sim.val(v, st) if isinstance(v, (Ins, Val)) else sim.asg.get(sim.where.get(v[1:])) if isinstance(v, tuple) else None)
                st["ev"] = st.get("ev", ()) + (("as", cls.split("::")[-1]) + tuple(vs),)
                l = sim.loc(i.ops[0], st)
                for o in tags.get(l[0], ()):
                    st[("m", l[0], o)] = Val("c", 0 if ok else 1)
            return [(g, 0)]

        def size(n):
            def g(sim, st, i):
                l = sim.loc(i.ops[0], st)
                st[("m",) + l] = Val("c", n if n is not None else 0)
                st[("m", l[0], l[1] + 8)] = Val("c", 0 if n is not None else 1)
            return [(g, 0)]
        SF, MF = ("m_accessMode", "m_openMode", "m_size"), ("m_length", "m_fileDescriptor", "m_accessMode", "m_flags", "m_offset")
        made_as = lambda r, c: [e[2:] for e in r.ev if e[0] == "as" and e[1] == c]
        for mn in OM:
            for an in ("ReadOnly", "ReadWrite"):
                for own in (0, 1):
                    F = {"mode": OM[mn], "access": AM[an], "size": 4711, "hint": 0, "getsize": size(8192), "sigfail": [(0, 0)], "mkshm": made(SB, SF, True), "mkmap": made(MB, MF, True), "owner": [(own, 0)], "handle": [(7, 0)], "addr": [(0x7000, 0)], "lock": [(0, 0)]}
                    w = run(cx, f, s, script(F), "%s, %s, owner %d" % (mn, an, own))
                    w(lambda r: s.final(r, "tag") == 0 and len(evs(r, "mkshm")) == len(evs(r, "mkmap")) == 1 and len(evs(r, "take")) >= 2, "the memory opened and mapped is handed out", "obj.ok")
                    w(lambda r: made_as(r, "PosixSharedMemoryBuilder") == [(AM[an], OM[mn], 4711)], "opened with mode, access and size asked for", "obj.open")
                    w(lambda r: made_as(r, "PosixMemoryMapBuilder") == [(8192, 7, AM[an], 1, 0)], "the whole memory is mapped, shared, with the access asked for", "obj.map")
                    w(lambda r: noted(r, "zero") == ([(0x7000, 0, 4711)] if own else []), "zeroed by its creator only", "obj.zero")
                    for sz in (0, 4710):
                        run(cx, f, s, script(dict(F, getsize=size(sz))), "%s, memory smaller than asked for" % mn)(lambda r: s.final(r, "tag") == 1 and not evs(r, "mkmap", "zero"), "reported, not mapped", "obj.small")
                    run(cx, f, s, script(dict(F, getsize=size(4711))), "%s, memory as large as asked for" % mn)(lambda r: s.final(r, "tag") == 0, "handed out", "obj.exact")
                    run(cx, f, s, script(dict(F, getsize=size(None))), "%s, size unknown" % mn)(lambda r: s.final(r, "tag") == 1 and not evs(r, "mkmap", "zero"), "reported", "obj.unknown")
                    run(cx, f, s, script(dict(F, mkmap=made(MB, MF, False))), "%s, mapping fails" % mn)(lambda r: s.final(r, "tag") == 1 and not evs(r, "zero"), "reported", "obj.mapfail")
                    run(cx, f, s, script(dict(F, mkshm=made(SB, SF, False))), "%s, opening fails" % mn)(lambda r: s.final(r, "tag") == 1 and not evs(r, "mkmap", "zero"), "reported", "obj.openfail")
                    if own:
                        run(cx, f, s, script(dict(F, sigfail=[(1, 0)])), "%s, no signal handler" % mn)(lambda r: s.final(r, "tag") == 1 and not evs(r, "zero"), "reported", "obj.sigfail")


@P.rule("R8", "memory is sized, mapped and released with its full size", min=10)
def width(cx):
    for n in ("obj.create", "shm.create", "map.create", "map.dtor", "map.assign"):
        for f in cx.fns(n):
            wide_sinks(cx, f, r"^(iox_)?(ftruncate|mmap|munmap|memset)(64)?$|^llvm\.memset", r"\.m_(size|length|memorySizeInBytes)$",
                       "no bits of the size of shared memory are dropped", n)
