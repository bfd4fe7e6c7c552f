from engine.core import Prop
from rules.lib import *

P = Prop("P20")
P.explain = """
Which segments a process is told about, and with which rights, is decided per (group of the user, segment) pair: each entry of the
mapping is traced back to one segment and its writable flag to the group comparison that guards it; the walk over both lists is
complete. The access control list of a segment is enumerated (group -> permission) and followed down to acl_set_fd: every system
call's failure value is checked on the way to 'true'."""
H = "iceoryx_hoofs/posix/"
S = "iceoryx_posh/source/"
P.group("sm", [S + "mepoo/segment_manager.cpp", S + "mepoo/mepoo_segment.cpp"], opaque=[r"^iox::Posix(User|Group)::", r"^iox::detail::PosixAcl::", r"^iox::mepoo::MemoryManager::", r"^iox::PosixSharedMemoryObject", r"^iox::UntypedRelativePointer::", r"^iox::PointerRepository", r"^iox::mepoo::SegmentManager::createSegment$"])
P.root("sm", "ctor", r"iox::mepoo::SegmentManager::SegmentManager")
P.root("sm", "getSegmentMappings", r"iox::mepoo::SegmentManager::getSegmentMappings")
P.root("sm", "getSegmentInfo", r"iox::mepoo::SegmentManager::getSegmentInformationWithWriteAccessForUser")
P.root("sm", "createSegment", r"iox::mepoo::SegmentManager::createSegment")
P.root("sm", "MePooSegment", r"iox::mepoo::MePooSegment::MePooSegment")
P.group("acl", [H + "filesystem/source/posix_acl.cpp"], opaque=[r"^iox::Posix(User|Group)::", r"^iox::storable_function::(?!operator\(\)|invoke)"])
for n in ("writePermissionsToFile", "addUserPermission", "addGroupPermission", "addPermissionEntry", "createACLEntry"):
    P.root("acl", n, "iox::detail::PosixAcl::" + n, opaque=[r"^iox::detail::PosixAcl::createACLEntry$"] if n == "writePermissionsToFile" else ())
P.group("auth", [H + "auth/source/posix_user.cpp", H + "auth/source/posix_group.cpp"])
for n in ("PosixUser", "getGroups", "getUserName", "getUserID", "getID", "getUserOfCurrentProcess"):
    P.root("auth", "u." + n, "iox::PosixUser::" + n)
for n in ("PosixGroup", "operator==", "getGroupName", "getGroupID", "getID"):
    P.root("auth", "g." + n, "iox::PosixGroup::" + n)

SEGS = r"^arg\d\.m_segmentContainer$"
SAME = call(r"PosixGroup::operator(==|!=)$")


def field_of(f, v, name):
    """the segment whose field `name` the value is (a copy of), or None"""
    o = held_by(f, v)
    r = set()
    for x in o:
        x = f.strip(x)
        if isinstance(x, Ins) and x.op == "load":
            x = f.strip(x.ops[0])
        if not isinstance(x, Ins) or not re.search(r"\.%s$" % name, f.path(x)) or x.op != "field":
            return None
        r.add(f.strip(x.ops[0]))
    return r.pop() if len(r) == 1 else None


def group_cmp(f, i, field):
    """(segment, group) compared by the call i"""
    for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
        s = field_of(f, a, field)
        if s is not None and vec_elem(f, s, SEGS):
            for g in held_by(f, b):
                return s, f.strip(g)
    return None


def name_of(f, v):
    """the group whose name the string v holds"""
    r = f.root_of(v)
    if isinstance(r, Ins) and r.op == "alloca":
        for w in f.writers(r):
            if w.op == "call" and (w.callee or "").endswith("PosixGroup::getName"):
                return w.ops[1]
    return None


def is_groups(f, v, user):
    """element pointer of the list of groups of the user"""
    def src(c):
        r = f.root_of(c)
        return isinstance(r, Ins) and r.op == "alloca" and any(w.op == "call" and (w.callee or "").endswith("PosixUser::getGroups") and f.path(w.ops[1]) == user for w in f.writers(r))
    p = f.strip(v)
    if isinstance(p, Ins) and p.op == "phi":
        for x in p.ops:
            s = f.strip(x)
            if isinstance(s, Ins) and s.op == "call" and re.search(r"::c?begin$", s.callee or "") and src(s.ops[-1]):
                return s.ops[-1]
    if isinstance(p, Ins) and p.op == "call" and re.search(r"::(operator\[\]|at)$", p.callee or "") and src(p.ops[0]):
        return p.ops[0]
    return None


def compares(f, field, user):
    """group comparisons (call, segment, group) of the field of a segment with a group of the user"""
    out = []
    for i in matching(f, SAME):
        c = group_cmp(f, i, field)
        if c and is_groups(f, c[1], user) is not None:
            out.append((i,) + c)
    return out


def match_edge(f, cmps, seg):
    """edge on which one of the comparisons about seg found equality"""
    ok = {c[0].id: ("!=" not in c[0].callee) for c in cmps if seg is None or c[1] is seg}

    def p(k, pol):
        t = truth_of(lambda i: i.id in ok)(k, pol)
        if t is None:
            return False
        return t is ok[k[1].id]
    return p


def complete(cx, f, cmps, what, tag, leave=None):
    req_some(cx, f, cmps, what, tag)
    for i, s, g in cmps[:1]:
        why = covers_vec(f, i, s, SEGS, leave)
        cx.ob(why is None, f, what + ("" if why is None else ": segments: " + why), tag, i)
        vec = re.escape(f.path(is_groups(f, g, "arg2"))) + "$"
        why = outer(f, i, g, vec, leave)
        cx.ob(why is None, f, what + ("" if why is None else ": groups: " + why), tag, i)


def outer(f, e, ptr, vec, leave=None):
    """the list holding ptr is run through to its end (e may be skipped when the inner list is empty)"""
    k = vec_elem(f, ptr, "^" + vec)
    if k is None or k[0] == "any":
        return "not a loop over the groups"
    ph = k[1]

    def done(k2, pol):
        if k[0] == "it":
            return k2[0] == "eq" and pol and any(isinstance(a, Ins) and a.op == "call" and re.search(r"::c?end$", a.callee or "") and re.search("^" + vec, f.path(a.ops[-1])) for a in k2[1:3])
        b = f.strip(k2[2]) if len(k2) > 2 else None
        return k2[0] in ("ult", "slt") and not pol and isinstance(b, Ins) and b.op == "call" and re.search(r"::size$", b.callee or "") is not None
    if k[0] == "it" and not any(isinstance(f.strip(x), Ins) and f.strip(x).op == "getelementptr" for x in ph.ops) or k[0] == "ix" and not any(f.affine(x) == {("v", ph.id): 1, 1: 1} for x in ph.ops):
        return "does not step through the list"
    return "the loop can be left early" if f.search(ph, is_ret, None, either(done, leave) if leave else done) is not None else None


@P.rule("R1", "a user is told of a segment as writable iff one of the user's groups is its writer group, as read-only iff one is its reader group and it is not listed yet; name, size and id are that segment's", min=10)
def _(cx):
    for f in cx.fns("getSegmentMappings"):
        W, R = compares(f, "m_writerGroup", "arg2"), compares(f, "m_readerGroup", "arg2")
        adds = matching(f, call(r"vector::(emplace_back|push_back)$"))
        req_some(cx, f, adds, "the segments are listed", "map")
        kinds = {0: [], 1: []}
        for a in adds:
            if len(a.ops) != 5:
                cx.ob(False, f, "a mapping consists of name, size, writable flag and segment id", "map.fields", a)
                continue
            w = scalar(f, a.ops[3])
            kind = w.v if isinstance(w, Val) and w.k == "c" else None
            if not cx.ob(kind in (0, 1), f, "each mapping is written as writable or as read-only", "map.flag", a):
                continue
            kinds[kind].append(a)
            segs = [field_of(f, a.ops[4], "m_segmentId"), field_of(f, a.ops[2], "m_segmentSize")]
            n = name_of(f, a.ops[1])
            segs.append(field_of(f, n, "m_writerGroup") if n is not None else None)
            cx.ob(segs[0] is not None and all(s is segs[0] for s in segs), f, "id, size and name of a mapping are those of one segment", "map.fields", a)
            req_guard(cx, f, a, match_edge(f, W if kind else R, segs[0]), "a %s mapping is only made where a group of the user is the %s group of that segment" % (("writable", "writer") if kind else ("read-only", "reader")), "map.guard", a)
        req_some(cx, f, kinds[1], "writable mappings exist", "map.w")
        req_some(cx, f, kinds[0], "read-only mappings exist", "map.r")
        complete(cx, f, W, "every segment's writer group is compared with every group of the user", "map.all.w")
        complete(cx, f, R, "every segment's reader group is compared with every group of the user", "map.all.r")
        # a match is listed
        nxt = [c[0] for c in W + R]
        found = lambda k, pol: seen(f, k) and pol or result(f, k) and not pol
        for cm, kind in ((W, 1), (R, 0)):
            me = match_edge(f, cm, None)
            goal = lambda i: i in nxt or is_ret(i)
            w = f.search_edge(me, goal, lambda i, kind=kind: i in kinds[kind], found if kind == 0 else None)
            cx.ob(w is None, f, "a segment whose %s group is one of the user's is listed" % ("writer" if kind else "reader"), "map.listed", w[-1] if w else None, w)
        # at most one writable mapping; nothing listed twice
        rows = table(f, {"w": lambda i: i in kinds[1]}, cap=2, order=False)
        check_rows(cx, f, rows, lambda r: r.n("w") <= 1, "a user gets at most one writable segment", "map.one")
        same_id = lambda k, pol: seen(f, k) and pol
        have = [k for k in all_keys(f) if seen(f, k)]
        req_some(cx, f, have, "the listed segments are searched for the id before a read-only entry is added", "map.dup")
        heads = [c[0] for c in R]
        w = f.search_edge(same_id, lambda i: i in kinds[0], lambda i: i in heads, lambda k, pol: result(f, k) and pol)
        cx.ob(w is None, f, "a segment that is listed already is not listed again", "map.dup", w[-1] if w else None, w)


def all_keys(f):
    out = []
    for i in f.ins():
        if i.op == "icmp":
            try:
                out.append(f.lit(i, True)[0])
            except Exception:
                pass
    return out


def seen(f, k):
    """comparison of the segment id of a listed mapping with that of a segment"""
    if k[0] != "eq":
        return False
    t = []
    for v in k[1:3]:
        if not (isinstance(v, Ins) and v.op == "load" and re.search(r"\.m_segmentId$", f.addr(v))):
            return False
        p = f.strip(v.ops[0])
        t.append(vec_elem(f, f.strip(p.ops[0]), SEGS) is not None)
    return sorted(t) == [False, True]


def result(f, k):
    """comparison of the result of the search for a listed segment with the end of the list"""
    if k[0] != "eq":
        return False
    for a, b in ((k[1], k[2]), (k[2], k[1])):
        if isinstance(b, Ins) and b.op == "call" and re.search(r"::c?end$", b.callee or "") and isinstance(a, Ins) and a.op == "phi":
            elems = set()
            for i in f.ins():
                if i.op == "icmp" and seen(f, f.lit(i, True)[0]):
                    for v in f.lit(i, True)[0][1:3]:
                        elems.add(f.path(f.strip(f.strip(v.ops[0]).ops[0])))
            if any(f.path(x) in elems for x in a.ops) and any(isinstance(f.strip(x), Ins) and f.strip(x).op == "call" and f.strip(x).callee == b.callee for x in a.ops):
                return True
    return False


@P.rule("R2", "the memory a user allocates from is that of the segment whose writer group is one of the user's groups, and none if there is no such segment", min=6)
def _(cx):
    for f in cx.fns("getSegmentInfo"):
        W = compares(f, "m_writerGroup", "arg2")
        has = [i for i in f.stores(r"^arg0\.m_memoryManager\.m_hasValue$")]
        data = [i for i in f.stores(r"^arg0\.m_memoryManager\.m_data")]
        sid = [i for i in f.stores(r"^arg0\.m_segmentID$") if not v_const(0)(f.strip(i.ops[0]))]
        req_some(cx, f, data, "the memory manager of the segment is returned", "info")
        req_some(cx, f, sid, "the id of the segment is returned", "info")
        for i in data:
            p = f.strip(i.ops[0])
            s = f.strip(p.ops[0]) if isinstance(p, Ins) and p.op == "field" and re.search(r"\.m_memoryManager$", f.path(p)) else None
            if cx.ob(s is not None and vec_elem(f, s, SEGS) is not None, f, "the memory manager returned belongs to one of the segments", "info.mm", i):
                req_guard(cx, f, i, match_edge(f, W, s), "a segment's memory is only handed out where its writer group is one of the user's groups", "info.guard", i)
                for j in sid:
                    s2 = field_of(f, j.ops[0], "m_segmentId")
                    cx.ob(s2 is s, f, "memory manager and segment id are of the same segment", "info.id", j)
        for i in has:
            if v_const(1)(f.strip(i.ops[0])):
                req_guard(cx, f, i, match_edge(f, W, None), "a memory manager is only returned after a match", "info.has", i)
        w = f.search_edge(match_edge(f, W, None), is_ret, lambda i: i in data)
        cx.ob(w is None, f, "the segment of the match is returned", "info.ret", w[-1] if w else None, w)
        w = f.search(None, is_ret, lambda i: i in has)
        cx.ob(w is None, f, "the result says whether a segment was found", "info.init", None, w)
        complete(cx, f, W, "every segment's writer group is compared with every group of the user", "info.all", match_edge(f, W, None))


@P.rule("R3", "each configured segment is created with its own reader and writer group, in their roles", min=8)
def _(cx):
    for f in cx.fns("ctor"):
        cs = matching(f, call(r"SegmentManager::createSegment$"))
        req_some(cx, f, cs, "a segment is created for each entry", "create")
        for c in cs[:1]:
            why = covers_vec(f, c, c.ops[1], r"\.m_sharedMemorySegments$")
            cx.ob(why is None, f, "a segment is created for each entry of the configuration%s" % ("" if why is None else ": " + why), "create.all", c)
    for f in cx.fns("createSegment"):
        es = matching(f, call(r"vector::(emplace_back|push_back)$|MePooSegment::MePooSegment$"))
        req_some(cx, f, es, "the segment is constructed", "create")
        for e in es:
            gs = []
            for a in e.ops:
                r = f.root_of(a)
                if isinstance(r, Ins) and r.op == "alloca":
                    for w in f.writers(r):
                        if w.op == "call" and (w.callee or "").endswith("PosixGroup::PosixGroup") and w.ops[0] is not None and f.root_of(w.ops[0]) is r:
                            gs.append(f.path(w.ops[1]))
            cx.ob([g.split(".")[-1] for g in gs] == ["m_readerGroup", "m_writerGroup"], f, "the groups passed on are the entry's reader group, then its writer group", "create.groups", e)
            ps = [f.path(a) for a in e.ops]
            cx.ob(any(p.endswith("arg1.m_mempoolConfig") for p in ps) and len({g.rsplit(".", 1)[0] for g in gs}) == 1, f, "configuration and groups are of the same entry", "create.entry", e)
        on_all_returns(cx, f, lambda i: i in es, "the segment is constructed on every path", "create.must")
    for f in cx.fns("MePooSegment"):
        for fld, arg in (("m_readerGroup", "arg4"), ("m_writerGroup", "arg5")):
            w = [i for i in f.ins() if i.op == "call" and MEMCPY.search(i.callee or "") and f.path(i.ops[0]) == "arg0." + fld]
            st = [i for i in f.stores(r"^arg0\.%s" % fld)]
            ok = [i for i in w if f.path(i.ops[1]) == arg] + [i for i in st if f.path(f.strip(f.strip(i.ops[0]).ops[0]) if isinstance(f.strip(i.ops[0]), Ins) and f.strip(i.ops[0]).op == "load" else i.ops[0]).startswith(arg)]
            cx.ob(bool(ok) and len(ok) == len(w) + len(st), f, "%s is the group given in that role" % fld, "seg.group")


@P.rule("R4", "a segment's access control list gives its writer group read-write access, its reader group read access, the owner read-write access and others none, and is in force before the memory is used", min=9)
def _(cx):
    CAT, PERM = cx.enum("iox::detail::PosixAcl::Category"), cx.enum("iox::detail::PosixAcl::Permission")
    for f in cx.fns("MePooSegment"):
        grp = matching(f, call(r"PosixAcl::addGroupPermission$"))
        ent = matching(f, call(r"PosixAcl::addPermissionEntry$"))
        usr = matching(f, call(r"PosixAcl::addUserPermission$"))
        wr = matching(f, call(r"PosixAcl::writePermissionsToFile$"))
        use = matching(f, call(r"MemoryManager::configureMemoryManager$"))
        req_some(cx, f, wr, "the access control list is written", "acl")
        req_some(cx, f, use, "the memory of the segment is configured", "acl")
        cx.ob(not usr, f, "no single user is given rights", "acl.user", usr[0] if usr else None)
        role = {"r": [], "w": []}
        for c in grp:
            n = name_of(f, c.ops[2])
            who = f.path(n) if n is not None else ""
            k = "r" if who == "arg4" or who.endswith(".m_readerGroup") else "w" if who == "arg5" or who.endswith(".m_writerGroup") else None
            p = f.strip(c.ops[1])
            if cx.ob(k is not None and isinstance(p, Val), f, "rights are given to the reader or the writer group", "acl.who", c):
                want = PERM["READWRITE"] if k == "w" else PERM["READ"]
                cx.ob(p.v == want, f, "the %s group gets %s access" % (("writer", "read-write") if k == "w" else ("reader", "read-only")), "acl.perm", c)
                role[k].append(c)
        eq = lambda k, pol: (lambda t: t is not None and t is ("!=" not in k[1].callee))(truth_of(SAME)(k, pol))
        for e in wr:
            for k, n in (("w", "writer"), ("r", "reader")):
                w = f.search(None, lambda i, e=e: i is e, lambda i, k=k: i in role[k], eq if k == "r" else None)
                cx.ob(bool(role[k]) and w is None, f, "the %s group's rights are part of the list%s" % (n, "" if k == "w" else " unless it is the writer group too"), "acl.has", e, w)
            need = {("USER", "READWRITE"), ("GROUP", "READWRITE"), ("OTHERS", "NONE")}
            for cat, perm in sorted(need):
                l = [c for c in ent if v_const(CAT[cat])(f.strip(c.ops[1])) and v_const(PERM[perm])(f.strip(c.ops[2]))]
                w = f.search(None, lambda i, e=e: i is e, lambda i: i in l)
                cx.ob(w is None, f, "%s: %s" % (cat, perm), "acl.entry", e, w)
            cx.ob(re.search(r"getFileHandle|get_file_handle|getHandle", f.term(e.ops[1])) is not None and "m_sharedMemoryObject" in f.term(e.ops[1]), f, "the list is written to the segment's own file", "acl.file", e)
        known = set()
        for c in ent:
            a, b = f.strip(c.ops[1]), f.strip(c.ops[2])
            key = (a.v, b.v) if isinstance(a, Val) and isinstance(b, Val) else None
            cx.ob(key in {(CAT["USER"], PERM["READWRITE"]), (CAT["GROUP"], PERM["READWRITE"]), (CAT["OTHERS"], PERM["NONE"])}, f, "no other category gets rights", "acl.extra", c)
        for u in use:
            req_guard(cx, f, u, holds(truth_of(lambda i: i in wr), True), "the memory is only used once the access rights are in force", "acl.inforce")


@P.rule("R5", "writing the list succeeds only if every entry, with its tag, qualifier and exactly its permission bits, was added and the system accepted the list", min=14)
def _(cx):
    CAT, PERM = cx.enum("iox::detail::PosixAcl::Category"), cx.enum("iox::detail::PosixAcl::Permission")
    for f in cx.fns("createACLEntry"):
        for n in ("create_entry", "set_tag_type", "set_qualifier", "get_permset", "add_perm"):
            acts = matching(f, call(r"^(iox_)?acl_%s$" % n))
            req_some(cx, f, acts, "acl_%s is called" % n, "acl.calls")
            ok = holds(posix_ok(f, r"^(iox_)?acl_%s$" % n, good=0, bad=0xffffffff), True)
            for a in acts:
                w = reach_true(f, a, ok)
                cx.ob(w is None, f, "a failing acl_%s is reported" % n, "acl.fail", a, w)
                w = f.search([a], lambda i, a=a: i in acts and i is not a, None, ok)
                cx.ob(w is None, f, "nothing more is added after a failing acl_%s" % n, "acl.next", a, w)
            if n != "set_qualifier" and n != "add_perm":
                w = reach_true(f, None, None, lambda i: i in acts)
                cx.ob(w is None, f, "an entry is only made with acl_%s" % n, "acl.must", None, w)
    for f in cx.fns("writePermissionsToFile"):
        ent = matching(f, call(r"PosixAcl::createACLEntry$"))
        mine = [a for a in ent if vec_elem(f, a.ops[1], r"^arg0\.m_permissions$")]
        req_some(cx, f, mine, "an entry is created for each permission", "acl.all")
        for a in mine[:1]:
            why = covers_vec(f, a, a.ops[1], r"^arg0\.m_permissions$", holds(truth_of(lambda i: i in mine), False))
            cx.ob(why is None, f, "an entry is created for each permission%s" % ("" if why is None else ": " + why), "acl.all", a)
            w = reach_true(f, a, holds(truth_of(lambda i: i is a), True))
            cx.ob(w is None, f, "an entry that cannot be created is reported", "acl.fail", a, w)
            ph = vec_elem(f, a.ops[1], r"^arg0\.m_permissions$")[1]
            w = reach_true(f, None, None, lambda i: i is ph)
            cx.ob(w is None, f, "success is only reported after the entries were created", "acl.must", None, w)
        MASK = truth_of(load(r"^arg0\.m_useACLMask$"))
        rest = [a for a in ent if a not in mine]
        req_some(cx, f, rest, "the mask is added", "acl.mask")
        for a in rest:
            req_guard(cx, f, a, holds(MASK, True), "the mask is added iff it is needed", "acl.mask")
            st = sorted((f.path(w.ops[1]), f.strip(w.ops[0]).v) for w in f.writers(f.root_of(a.ops[1])) if w.op == "store" and isinstance(f.strip(w.ops[0]), Val))
            cx.ob([x[1] for x in st][:2] == [16, PERM["READWRITE"]], f, "the mask lets through what the entries grant", "acl.mask.bits", a)
        sets = matching(f, call(r"^(iox_)?acl_set_fd$"))
        w = f.search(None, lambda i: i in sets, lambda i: i in rest, holds(MASK, False))
        cx.ob(w is None, f, "the list is applied with its mask if it needs one", "acl.mask.must", sets[0] if sets else None, w)
        for n in ("valid", "set_fd"):
            acts = matching(f, call(r"^(iox_)?acl_%s$" % n))
            req_some(cx, f, acts, "acl_%s is called" % n, "acl.calls")
            w = reach_true(f, None, None, lambda i: i in acts)
            cx.ob(w is None, f, "success is only reported after acl_%s" % n, "acl.must", None, w)
            for a in acts:
                w = reach_true(f, a, holds(posix_ok(f, r"^(iox_)?acl_%s$" % n, good=0, bad=0xffffffff), True))
                cx.ob(w is None, f, "a failing acl_%s is reported" % n, "acl.fail", a, w)
                if n == "set_fd":
                    cx.ob(f.term(a.ops[0]) == "arg1", f, "the list is applied to the given file", "acl.fd", a)
    # permission bits
    for f in cx.fns("createACLEntry"):
        add = matching(f, call(r"^(iox_)?acl_add_perm$"))
        R, W = PERM["READ"], PERM["WRITE"]
        for a in add:
            cx.ob(isinstance(f.strip(a.ops[1]), Val) and f.strip(a.ops[1]).v in (R, W), f, "a permission added is read or write", "acl.bits", a)
        s = {"READ": {R}, "WRITE": {W}, "READWRITE": {R, W}, "NONE": set()}
        perm = {i.id for i in f.loads(r"\.m_permission$")}
        cat = {i.id for i in f.loads(r"\.m_category$")}
        for pn, want in sorted(s.items()):
            for cn in sorted(CAT):
                got = bits(f, add, perm, PERM[pn], cat, CAT[cn])
                cx.ob(got is not None and all(g[0] == want for g in got) and bool(got), f, "%s for %s adds exactly those bits: got %s" % (pn, cn, sorted(got[0][0]) if got else None), "acl.bits")
                q = cn in ("SPECIFIC_USER", "SPECIFIC_GROUP")
                cx.ob(bool(got) and all(g[1] == q for g in got), f, "%s entries %s a qualifier" % (cn, "carry" if q else "do not carry"), "acl.qual")
        for a in matching(f, call(r"^(iox_)?acl_set_qualifier$")):
            cx.ob(re.search(r"^arg1\.m_id$", f.path(a.ops[1])) is not None, f, "the qualifier is the entry's id", "acl.qual", a)
        for a in matching(f, call(r"^(iox_)?acl_set_tag_type$")):
            t = f.strip(a.ops[1])
            cx.ob(isinstance(t, Ins) and t.op == "load" and f.path(t.ops[0]) == "arg1.m_category", f, "the tag is the entry's category", "acl.tag", a)
    for f in cx.fns("addPermissionEntry"):
        em = matching(f, call(r"vector::(emplace_back|push_back)$"))
        req_some(cx, f, em, "the entry is recorded", "acl.add")
        for e in em:
            st = [w for w in f.writers(f.root_of(e.ops[1])) if w.op == "store"] if isinstance(f.root_of(e.ops[1]), Ins) else []
            cx.ob(sorted(f.term(w.ops[0]) for w in st) == ["arg1", "arg2", "arg3"] or len(e.ops) > 2, f, "category, permission and id are recorded", "acl.add", e)
        rows = bool_rows(f, {"add": lambda i: i in em}, {})
        check_rows(cx, f, rows, lambda r: r.lit.get("ret") is not True or r.n("add") == 1, "'true' means the entry was recorded", "acl.add.ret")
        check_rows(cx, f, rows, lambda r: r.lit.get("ret") is not False or r.n("add") == 0, "'false' means it was not", "acl.add.ret")
        mask = [i for i in f.stores(r"^arg0\.m_useACLMask$") if v_const(1)(f.strip(i.ops[0]))]
        req_some(cx, f, mask, "specific entries switch the mask on", "acl.mask")
        for e in em:
            for cn in ("SPECIFIC_USER", "SPECIFIC_GROUP"):
                w = f.search_edge(lambda k, pol, cn=cn: k[0] == "eq" and pol and any(v_const(CAT[cn])(f.strip(x) if isinstance(x, Ins) else x) for x in k[1:3]) and any(f.term(x) == "arg1" for x in k[1:3]), lambda i, e=e: i is e, lambda i: i in mask)
                cx.ob(w is None, f, "an entry for %s switches the mask on" % cn, "acl.mask", e, w)
                who = opt_has(call(r"PosixUser::getUserName$" if cn == "SPECIFIC_USER" else r"PosixGroup::getGroupName$"))
                w = f.search_edge(lambda k, pol, cn=cn: k[0] == "eq" and pol and any(v_const(CAT[cn])(f.strip(x) if isinstance(x, Ins) else x) for x in k[1:3]) and any(f.term(x) == "arg1" for x in k[1:3]), lambda i, e=e: i is e, None, holds(who, True))
                cx.ob(w is None, f, "an entry for %s is only made if it exists" % cn, "acl.exists", e, w)
    for n, get, cat in (("addUserPermission", r"PosixUser::getUserID$", "SPECIFIC_USER"), ("addGroupPermission", r"PosixGroup::getGroupID$", "SPECIFIC_GROUP")):
        for f in cx.fns(n):
            g = matching(f, call(get))
            req_some(cx, f, g, "the id of the name is looked up", "acl.id")
            em = matching(f, call(r"vector::(emplace_back|push_back)$"))
            for e in em:
                vals = [f.strip(w.ops[0]) for w in f.writers(f.root_of(e.ops[1])) if w.op == "store"]
                ok = any(isinstance(v, Val) and v.v == CAT[cat] for v in vals)
                idv = [v for v in vals if isinstance(v, Ins) and v.op == "load" and any(f.root_of(v.ops[0]) is f.root_of(c.ops[0]) for c in g)]
                cx.ob(ok and bool(idv), f, "the entry carries category %s and the id of that name" % cat, "acl.id", e)
                req_guard(cx, f, e, holds(opt_has(call(get)), True), "an entry is only made for a name that exists", "acl.known")
            req_some(cx, f, em, "an entry is made", "acl.known")
            for c in g:
                cx.ob(f.path(c.ops[1]) == "arg2", f, "the id is that of the given name", "acl.id", c)


def reach_true(f, start, ok_edge, avoid=None):
    """path from start (entry) to a return of something else than false, not passing the edge / instruction"""
    r = f.rets()[0]
    v = f.strip(r.ops[0]) if r.ops else None
    if v is None:
        return None
    tr = []
    for a, st, trail in f.simulate({"on": start is None, "ok": False}, lambda st, i: _st(st, i, start, avoid), lambda st, k, pol: _ed(st, k, pol, ok_edge)):
        if st["on"] and not st["ok"]:
            x = res(f, a.ops[0], st)
            if isinstance(x, Ins) and x.op in ("icmp", "xor") and ok_edge and ok_edge(*f.lit(x, True)):
                continue
            if not (isinstance(x, Val) and x.v == 0):
                return trail
    return None


def _st(st, i, start, avoid):
    if i is start:
        st["on"], st["ok"] = True, False
    if avoid and avoid(i):
        st["ok"] = True
    return None


def _ed(st, k, pol, ok_edge):
    if st["on"] and ok_edge and ok_edge(k, pol):
        st["ok"] = True
    return None


def bits(f, add, perm, pv, cat, cv):
    """[(bits added, qualifier set)] on the paths that report success, for an entry with permission pv and category cv"""
    out = []

    def step(st, i):
        if i in add:
            st["b"] = tuple(sorted(set(st["b"]) | {f.strip(i.ops[1]).v}))
        if i.op == "call" and re.search(r"acl_set_qualifier$", i.callee or ""):
            st["q"] = True
        return None

    def edge(st, k, pol):
        if k[0] == "eq" and isinstance(k[1], Ins):
            c = f.strip(k[2]) if isinstance(k[2], Ins) else k[2]
            n = c.v if isinstance(c, Val) and c.k == "c" else None
            if n is not None and k[1].id in perm and (n == pv) is not pol:
                return False
            if n is not None and k[1].id in cat and (n == cv) is not pol:
                return False
        return None
    for r, st, tr in f.simulate({"b": (), "q": False}, step, edge):
        x = res(f, r.ops[0], st)
        if isinstance(x, Val) and x.v == 0:
            continue
        out.append((set(st["b"]), st["q"]))
    return out


@P.rule("R6", "the groups of a user are those the system lists for that user id; groups compare by id; the current user is the effective user", min=12)
def _(cx):
    for f in cx.fns("u.getGroups"):
        gl = matching(f, call(r"^(iox_)?getgrouplist$"))
        em = matching(f, call(r"vector::(emplace_back|push_back)$"))
        req_some(cx, f, gl, "the group list of the user is read", "user.groups")
        req_some(cx, f, em, "the groups are returned", "user.groups")
        ids = matching(f, call(r"^getpwuid$"))
        req_some(cx, f, ids, "the user's name is looked up by id", "user.id")
        for i in ids:
            cx.ob(re.search(r"arg1\.m_id", f.term(i.ops[0])) is not None, f, "the user looked up is this user", "user.id", i)
        for e in em:
            req_guard(cx, f, e, holds(posix_ok(f, r"^(iox_)?getgrouplist$", bad=0xffffffff)), "groups are only returned if reading the list succeeded", "user.fail", False)
            ep = f.strip((held_by(f, e.ops[1]) or [e.ops[1]])[0])
            base = lambda x: f.root_of(f.strip(x).ops[0]) if isinstance(f.strip(x), Ins) and f.strip(x).op == "call" else f.root_of(x)
            cx.ob(any(base(ep) is base(g.ops[2]) for g in gl), f, "each group returned is one of the list", "user.elem", e)
            ix = ep.ops[1] if isinstance(ep, Ins) and ep.op == "call" and len(ep.ops) > 1 else index_of(f, ep)
            c = Counter(f, ix) if ix is not None else None
            cx.ob(c is not None and c.ok and all(v_const(0)(x) for x in c.inits), f, "the list is copied from its first group", "user.all", e)
            if c is not None and c.ok:
                lim = lambda k, pol: k[0] in ("ult", "slt") and not pol and c.is_val(k[1]) and isinstance(f.strip(k[2]), Ins) and f.strip(k[2]).op == "load" and any(f.root_of(f.strip(k[2]).ops[0]) is f.root_of(g.ops[3]) for g in gl) \
                    or k[0] == "eq" and pol and c.is_val(k[1]) and isinstance(f.strip(k[2]), Ins) and f.strip(k[2]).op == "load" and any(f.root_of(f.strip(k[2]).ops[0]) is f.root_of(g.ops[3]) for g in gl)
                w = f.search(e, is_ret, None, lim)
                cx.ob(w is None, f, "the list is copied to its last group", "user.all", e, w)
    for f in cx.fns("g.operator=="):
        r = f.rets()[0]
        k = f.lit(f.strip(r.ops[0]), True)[0]
        ps = sorted(f.addr(x) for x in k[1:3] if isinstance(x, Ins) and x.op == "load") if k[0] == "eq" else []
        cx.ob(ps == ["arg0.m_id", "arg1.m_id"] and f.lit(f.strip(r.ops[0]), True)[1] is True, f, "two groups are equal iff their ids are", "group.eq", r)
    for cls, o in (("u", "^getpwuid$"), ("g", "^getgrgid$")):
        for f in cx.fns("u.PosixUser" if cls == "u" else "g.PosixGroup"):
            st = [i for i in f.stores(r"^arg0\.m_id$")]
            byname = "string" in f.full
            req_some(cx, f, st, "the id is stored", "id.ctor")
            for i in st:
                v = f.strip(i.ops[0])
                if not byname:
                    cx.ob(f.term(v) == "arg1", f, "the id is the one given", "id.ctor", i)
                elif isinstance(v, Val):
                    cx.ob(v.v == 0xffffffff, f, "an unknown name gets no existing id", "id.unknown", i)
                else:
                    okn = posix_ok(f, r"^get(pw|gr)nam$", bad=0)
                    req_guard(cx, f, i, either(holds(okn), tagged(f)), "the id of a name is only used if the name was found", "id.ctor")
    for rid, rx, fld in (("u.getUserID", r"^getpwnam$", "pw_uid"), ("g.getGroupID", r"^getgrnam$", "gr_gid")):
        for f in cx.fns(rid):
            ls = [i for i in f.loads(r"\.%s$" % fld)]
            req_some(cx, f, ls, "the id is read from the entry of the database", "id.name")
            for i in ls:
                cx.ob(posix_val(f, f.strip(i.ops[0]).ops[0], rx), f, "the id is that of the entry found by name", "id.name", i)
                req_guard(cx, f, i, holds(posix_ok(f, rx, bad=0)), "the entry is only read if the name was found", "id.found")
    for f in cx.fns("u.getUserOfCurrentProcess"):
        ids = matching(f, call(r"^(iox_)?get\w*id$"))
        cx.ob(bool(ids) and all(re.search(r"geteuid$", i.callee) for i in ids if not re.search(r"getpw|getgr", i.callee)), f, "the current user is the effective user of the process", "user.euid", ids[0] if ids else None)


def tagged(f):
    o = opt_has(lambda i: False)
    def p(k, pol):
        # has_value() of an optional that was filled from the entry found by name
        if k[0] in ("b", "eq") and isinstance(k[1], Ins) and k[1].op == "load" and isinstance(f.root_of(k[1].ops[0]), Ins) and f.root_of(k[1].ops[0]).op == "alloca":
            a = f.root_of(k[1].ops[0])
            if any(w.op == "store" and v_const(1)(f.strip(w.ops[0])) for w in f.writers(a)):
                t = truth_of(lambda i: i is k[1])(k, pol)
                return t is True
        return False
    return p
