import os

from engine.build import Broken
from engine.core import Prop
from engine.eh import Unit
from rules.lib import *

P = Prop("P28")
S = "iceoryx_posh/source/roudi/"
DRV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "enums.cpp")
OUT = [r"^std::", r"^iox::log::", r"^iox::convert::"]
P.group("toml", [S + "roudi_config_toml_file_provider.cpp"], opaque=OUT + [r"^cpptoml::", r"^iox::mepoo::", r"^iox::PosixGroup::", r"^iox::into$", r"^iox::config::TomlRouDiConfigFileProvider::parse$", r"^iox::config::RouDiConfig::(setDefaults|operator=)"])
P.root("toml", "parse", "iox::config::TomlRouDiConfigFileProvider::parse")
P.root("toml", "ctor", "iox::config::TomlRouDiConfigFileProvider::TomlRouDiConfigFileProvider")
P.group("cmd", [S + "roudi_cmd_line_parser.cpp"], opaque=OUT)
P.root("cmd", "cmd", "iox::config::CmdLineParser::parse")
P.group("cfo", [S + "roudi_cmd_line_parser_config_file_option.cpp"], opaque=OUT + [r"^iox::config::CmdLineParser::parse$"])
P.root("cfo", "cfo", "iox::config::CmdLineParserConfigFileOption::parse")
P.group("main", [S + "application/roudi_main.cpp"], opaque=OUT + [r"^iox::config::", r"^iox::roudi::IceOryxRouDiApp::"])
P.root("main", "main", "main")
P.group("app", [S + "application/roudi_app.cpp"], opaque=OUT)
P.root("app", "check", "iox::roudi::RouDiApp::checkAndOptimizeConfig")
P.root("app", "app", "iox::roudi::RouDiApp::RouDiApp")
P.group("run", [S + "application/iceoryx_roudi_app.cpp"], opaque=OUT + [r"^iox::roudi::(IceOryxRouDiComponents|RouDi)::", r"waitForTerminationRequest$"])
P.root("run", "run", "iox::roudi::IceOryxRouDiApp::run")
CTOR = r"^(?!iox::roudi::%s::)(iox::roudi::\w+::|iox::concurrent::|iox::popo::|iox::runtime::|iox::FileLock|iox::mepoo::)"
for g, fn, cls in (("c1", "iceoryx_roudi_components.cpp", "IceOryxRouDiComponents"), ("c2", "memory/iceoryx_roudi_memory_manager.cpp", "IceOryxRouDiMemoryManager"), ("c3", "memory/default_roudi_memory.cpp", "DefaultRouDiMemory"), ("c4", "roudi.cpp", "RouDi")):
    P.group(g, [S + fn], opaque=OUT + [CTOR % cls])
    P.root(g, g, "iox::roudi::%s::%s" % (cls, cls))
P.group("end", [S + "roudi.cpp"], opaque=OUT + [CTOR % "RouDi", r"^iox::(deadline_timer|units::Duration)::", r"^iox::units::operator"])
P.root("end", "end", "iox::roudi::RouDi::shutdown")
P.root("end", "chan", "iox::roudi::RouDi::startProcessRuntimeMessagesThread")
P.group("mc", ["iceoryx_posh/source/mepoo/mepoo_config.cpp"], opaque=OUT)
P.root("mc", "add", "iox::mepoo::MePooConfig::addMemPool")
P.explain = """
One decision table per configuration table of the file and per option of the command line: which entries are looked up under which names,
what is refused, what each accepted entry is turned into, for every element of every list, and that nothing else reaches the daemon.
Exceptions of the TOML library (it throws on a number outside its type) are followed from each throwing function to the handler in the landing pads
of the unit compiled with exceptions. Not covered: names longer than their fixed-size strings are cut off, as the code asks for; exceptions of the standard library (no memory)."""
GET = re.compile(r"^cpptoml::table::get_(as|table|table_array)$")
SAME = re.compile(r"(::(operator->|operator\*|get|c_str|value|str)|^std::(move|forward)|^iox::(into|expected::value))$")
COPY = re.compile(r"(shared_ptr::(shared_ptr|operator=)|basic_string::(basic_string|operator=)|^iox::string::(string|operator=)|option::option|^iox::into|^std::move)$")


def org(f, v, d=0):
    """where a value of the configuration file comes from"""
    if d > 24:
        return ("?",)
    s = f.strip(v)
    if isinstance(s, Val):
        if s.k == "g" and isinstance(s.x, dict) and "str" in s.x:
            return ("str", s.x["str"])
        return (s.k, s.v)
    if s.op == "load":
        return org(f, s.ops[0], d + 1)
    if s.op == "extractvalue":
        return org(f, s.ops[0], d + 1)
    if s.op == "field":
        return org(f, s.ops[0], d + 1)
    if s.op == "getelementptr" and not any(isinstance(f.strip(x), Ins) for x in s.ops[1:]):
        return org(f, s.ops[0], d + 1)
    if s.op in ("zext", "trunc"):
        return org(f, s.ops[0], d + 1)
    if s.op == "call":
        return made(f, s, s.ops, d)
    if s.op == "alloca":
        l = set()
        for w in f.writers(s):
            if w.op == "store":
                x = f.strip(w.ops[0])
                if isinstance(x, Ins) and x.op == "getelementptr" and isinstance(f.strip(x.ops[0]), Ins) and f.strip(x.ops[0]).op == "load" and f.root_of(f.strip(x.ops[0]).ops[0]) is s:
                    continue  # an iterator that moves on
                l.add(org(f, x, d + 1))
            elif w.op == "call" and w.ops and f.strip(w.ops[0]) is s and not re.search(r"(^|::)~", w.callee or "") and (COPY.search(w.callee or "") or GET.search(w.callee or "") or re.search(r"::(value_or|getName|parse)$", w.callee or "")):
                o = made(f, w, w.ops[1:], d)
                if o != ("null", None):
                    l.add(o)
        if len(l) == 1:
            return l.pop()
        return ("many",) + tuple(sorted(map(repr, l))) if l else ("?",)
    return ("?",)


def made(f, c, ops, d):
    n = c.callee or ""
    if GET.search(n):
        return ("get", n.rsplit("::", 1)[1], org(f, ops[0], d + 1), org(f, ops[1], d + 1)[-1])
    if re.search(r"parser::parse$", n):
        return ("file",)
    if re.search(r"PosixGroup::getName$", n):
        return ("group",)
    if re.search(r"::value_or$", n):
        return ("or", org(f, ops[0], d + 1), org(f, ops[1], d + 1))
    if re.search(r"::c?begin$", n):
        return ("elem", org(f, ops[0], d + 1))
    if re.search(r"::(operator\[\]|at)$", n):
        return ("elem", org(f, ops[0], d + 1))
    if re.search(r"::(size|length)$", n):
        return ("size", org(f, ops[0], d + 1))
    if re.search(r"::c?end$", n):
        return ("end", org(f, ops[0], d + 1))
    if SAME.search(n) or COPY.search(n) or re.search(r"__shared_ptr_access::|__shared_ptr::get$", n):
        return org(f, ops[0], d + 1) if ops else ("?",)
    return ("?", n)


FILE = ("file",)
GENERAL = ("get", "get_table", FILE, "general")
VERSION = ("get", "get_as", GENERAL, "version")
SEGS = ("get", "get_table_array", FILE, "segment")
SEG = ("elem", SEGS)
POOLS = ("get", "get_table_array", SEG, "mempool")
POOL = ("elem", POOLS)
SIZE = ("get", "get_as", POOL, "size")
COUNT = ("get", "get_as", POOL, "count")


def present(f, what):
    """condition: the looked up entry exists"""
    def test(i):
        return i.op == "call" and i.ops and org(f, i.ops[-1]) == what

    def p(k, pol):
        for i in k[1:2]:
            if not isinstance(i, Ins):
                return None
            n = i.callee or "" if i.op == "call" else ""
            if i.op == "call" and re.search(r"(^|::)(bool|operator bool|get)$", n) and test(i):
                if k[0] == "b":
                    return pol
                if k[0] == "eq" and isnull(k[2]):
                    return not pol
            if i.op == "call" and len(i.ops) == 2 and k[0] == "b" and org(f, i.ops[0]) == what and isnull(f.strip(i.ops[1])):
                m = re.search(r"operator(==|!=)", i.full or "")
                return None if m is None else pol == (m.group(1) == "!=")
        return None
    return p


def more(f, arr):
    """condition: the loop over the array has another element"""
    def p(k, pol):
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and len(k[1].ops) == 2:
            o = [org(f, x) for x in k[1].ops]
            if set(o) == {("elem", arr), ("end", arr)}:
                m = re.search(r"operator ?(==|!=)", k[1].full or "")
                return None if m is None else pol == (m.group(1) == "!=")
        if k[0] == "eq" and {org(f, k[1]), org(f, k[2])} == {("elem", arr), ("end", arr)}:
            return not pol
        if k[0] in ("ult", "slt") and org(f, k[2]) == ("size", arr) and isinstance(k[1], Ins) and k[1].op == "phi":
            return pol
        return None
    return p


def walks(cx, f, arr, what, tag):
    """elements are taken one by one from the first on"""
    ok = True
    n = 0
    for i in f.ins():
        if i.op == "call" and len(i.ops) == 2 and {org(f, x) for x in i.ops} == {("elem", arr), ("end", arr)}:
            n += 1
            it = next(f.root_of(x) for x in i.ops if org(f, x) == ("elem", arr))
            for w in f.writers(it):
                if w.op == "store":
                    x = f.strip(w.ops[0])
                    if isinstance(x, Ins) and x.op == "call" and re.search(r"::c?begin$", x.callee or ""):
                        continue
                    if isinstance(x, Ins) and x.op == "load" and org(f, x) == ("elem", arr):
                        continue
                    a = f.path(x)
                    if not a.endswith("+16"):
                        ok = False
        if i.op == "call" and re.search(r"::(operator\[\]|at)$", i.callee or "") and org(f, i) == ("elem", arr):
            n += 1
            ph = f.strip(i.ops[1])
            while isinstance(ph, Ins) and ph.op in ("zext", "sext"):
                ph = f.strip(ph.ops[0])
            if not (isinstance(ph, Ins) and ph.op == "phi" and any(v_const(0)(f.strip(x)) for x in ph.ops) and any(f.affine(x) == {("v", ph.id): 1, 1: 1} for x in ph.ops)):
                ok = False
    cx.ob(ok and n > 0, f, what, tag)


def limit(f, arr, n):
    """condition: the array has more than n elements"""
    def p(k, pol):
        if k[0] in ("ult", "slt"):
            if org(f, k[2]) == ("size", arr) and v_const(n)(k[1]):
                return pol
            if org(f, k[1]) == ("size", arr) and v_const(n + 1)(k[2]):
                return not pol
        return None
    return p


@P.rule("R1", "the file is accepted only if complete, supported and within the limits, and each of its entries is taken over as written", min=20)
def r1(cx):
    f = next((x for x in cx.fns("parse") if any(re.search(r"cpptoml::parser::parse$", i.callee or "") for i in f_calls(x))), None)
    if f is None:
        raise Broken("the parser of the configuration file")
    E, K = cx.enum("iox::roudi::RouDiConfigFileParseError"), cx.enum("verif::ConfigLimits")
    vers = equals(lambda v: isinstance(v, Ins) and org(f, v) == VERSION, v_const(1))
    once = {"general": present(f, GENERAL), "vpresent": present(f, VERSION), "v1": vers, "segs": present(f, SEGS), "segmany": limit(f, SEGS, K["Segments"])}
    seg = {"pools": present(f, POOLS), "poolmany": limit(f, POOLS, K["Pools"])}
    pool = {"size": present(f, SIZE), "count": present(f, COUNT)}
    segm, poolm = more(f, SEGS), more(f, POOLS)
    PUSH = call(r"^iox::vector::(push_back|emplace_back)$")
    ADD = call(r"MePooConfig::addMemPool$")
    FRESH = call(r"MePooConfig::MePooConfig$")
    bad = []
    seen = {"seg": 0, "pool": 0}

    def fail(what, tr):
        bad.append(what)

    def pool_done(st):
        if st.get("inpool"):
            if st.get("add", 0) != 1:
                fail("a pool of a segment is not taken over exactly once", None)
            if st.get("size") is not True or st.get("count") is not True:
                fail("a pool is taken over although its chunk size or count is missing", None)

    def seg_done(st):
        if st.get("inseg"):
            if st.get("push", 0) != 1:
                fail("a segment of the file is not taken over exactly once", None)
            if st.get("pools") is not True or st.get("poolmany") is not False:
                fail("a segment is taken over although it has no pools or too many", None)
            if st.get("poolend") is not True:
                fail("a segment is taken over before all its pools were read", None)

    CELL = re.compile(r"^\$(expected|variant|DefaultType|ok|err)\w*#")

    def known(v, st, d=0):
        """a number an expected result of a helper holds, if this path has put it there"""
        v = f.strip(v)
        if isinstance(v, Val):
            return v.v if v.k == "c" else None
        if v.op == "load":
            return st.get(("m", f.path(v.ops[0])))
        if v.op in ("zext", "trunc", "sext") and d < 4:
            return known(v.ops[0], st, d + 1)
        if v.op == "phi":
            x = st.get(("phi", v.id))
            return None if x is None or d > 4 else known(x, st, d + 1)
        return None

    def step(st, i):
        if i.op == "store":
            if store(EXP_TAG)(i):
                v = known(i.ops[0], st)
                st["tag"] = "?" if v is None else v
            elif store(EXP_VAL)(i):
                v = known(i.ops[0], st)
                st["val"] = "?" if v is None else v
            elif CELL.search(f.addr(i)):
                v = known(i.ops[0], st)
                if v is None:
                    st.pop(("m", f.addr(i)), None)
                else:
                    st[("m", f.addr(i))] = v
        elif i.op == "call" and re.search(r"memcpy|memmove", i.callee or "") and (CELL.search(f.path(i.ops[0])) or f.path(i.ops[0]).startswith("arg0")):
            a, b = f.path(i.ops[0]), f.path(i.ops[1])
            for k, v in list(st.items()):
                if k[0] == "m" and isinstance(k, tuple) and (k[1] == b or k[1].startswith(b + "+")):
                    st[("m", a + k[1][len(b):])] = v
        elif i.op == "call":
            if ADD(i):
                st["add"] = min(2, st.get("add", 0) + 1)
                if not st.get("fresh"):
                    fail("the pools of a segment are added to those of another one", None)
            elif PUSH(i):
                st["push"] = min(2, st.get("push", 0) + 1)
                if st.get("poolend") is not True:
                    fail("a segment is taken over before all its pools were read", None)
            elif FRESH(i) and len(i.ops) == 1:
                st["fresh"] = True
        return None

    def edge(st, k, pol):
        if k[0] == "eq" and isinstance(k[2], Val) and k[2].k == "c" and isinstance(k[1], Ins):
            v = known(k[1], st) if k[1].op == "load" else None
            if v is not None and (v == k[2].v) is not pol:
                return False
        for l in (once, seg, pool):
            for n, p in l.items():
                t = p(k, pol)
                if t is not None:
                    st[n] = t
        t = segm(k, pol)
        if t is not None:
            seg_done(st)
            for n in ("push", "pools", "poolmany", "fresh", "inpool", "add", "size", "count", "poolend"):
                st.pop(n, None)
            st["inseg"] = t
            st["segend"] = not t
            seen["seg"] += 1
        t = poolm(k, pol)
        if t is not None:
            pool_done(st)
            for n in ("add", "size", "count"):
                st.pop(n, None)
            st["inpool"] = t
            st["poolend"] = not t
            seen["pool"] += 1
        return None
    why = {"NO_GENERAL_SECTION": lambda s: s.get("general") is False,
           "INVALID_CONFIG_FILE_VERSION": lambda s: s.get("vpresent") is False or s.get("v1") is False,
           "NO_SEGMENTS": lambda s: s.get("segs") is False,
           "MAX_NUMBER_OF_SEGMENTS_EXCEEDED": lambda s: s.get("segmany") is True,
           "SEGMENT_WITHOUT_MEMPOOL": lambda s: s.get("pools") is False,
           "MAX_NUMBER_OF_MEMPOOLS_PER_SEGMENT_EXCEEDED": lambda s: s.get("poolmany") is True,
           "MEMPOOL_WITHOUT_CHUNK_SIZE": lambda s: s.get("size") is False,
           "MEMPOOL_WITHOUT_CHUNK_COUNT": lambda s: s.get("count") is False}
    name = {v: k for k, v in E.items()}
    todo, ph = [i.ops[0] for i in f.ins() if i.op == "store" and (store(EXP_TAG)(i) or store(EXP_VAL)(i) or CELL.search(f.addr(i)))], set()
    while todo:
        v = f.strip(todo.pop())
        if isinstance(v, Ins) and v.op in ("phi", "zext", "trunc", "sext") and v.id not in ph:
            ph.add(v.id)
            todo += v.ops
    rows = f.simulate({}, step, edge, phis=ph)
    got = set()
    for r, st, tr in rows:
        if st.get("tag") == 1:
            n = name.get(st.get("val"))
            got.add(n)
            cx.ob(n in why and why[n](st), f, "the error reported for a configuration file is the one found in it (%s)" % n, "file/err/%s" % n, r, tr)
        else:
            ok = st.get("tag") == 0 and all(st.get(n) is True for n in ("general", "vpresent", "v1", "segs", "segend")) and st.get("segmany") is False
            cx.ob(ok, f, "a configuration is made only from a file with a supported version and a permitted number of segments, all of which were read (%s)" % {k: v for k, v in st.items() if isinstance(v, (bool, int)) and isinstance(k, str)}, "file/ok", r, tr)
            got.add("ok")
    for n in list(why) + ["ok"]:
        cx.ob(n in got, f, "a configuration file can be judged as %s" % n, "file/reach/%s" % n)
    for b in sorted(set(bad)):
        cx.ob(False, f, b, "file/each/" + b[:20])
    cx.ob(seen["seg"] > 0 and seen["pool"] > 0, f, "the segments of the file and the pools of each are gone through", "file/loops")
    walks(cx, f, SEGS, "the segments are read one by one from the first on", "file/walk/seg")
    walks(cx, f, POOLS, "the pools are read one by one from the first on", "file/walk/pool")
    # what is taken over
    adds, pushes = matching(f, ADD), matching(f, PUSH)
    req_some(cx, f, adds, "the pools of the file are taken over", "file/adds")
    req_some(cx, f, pushes, "the segments of the file are taken over", "file/pushes")
    cfgs = set()
    for a in adds:
        cfgs.add(f.root_of(a.ops[0]))
        e = a.ops[1:]
        if len(e) == 1 and isinstance(f.root_of(e[0]), Ins) and f.root_of(e[0]).op == "alloca" or len(e) == 2 and isinstance(f.strip(e[0]), Ins) and f.strip(e[0]).op == "load" and isinstance(f.root_of(f.strip(e[0]).ops[0]), Ins) and f.root_of(f.strip(e[0]).ops[0]).op == "alloca":
            r = f.root_of(f.strip(e[0]).ops[0]) if len(e) == 2 else f.root_of(e[0])
            c = [w for w in f.writers(r) if w.op == "call" and re.search(r"Entry::Entry$", w.callee or "") and len(w.ops) == 3]
            e = c[0].ops[1:] if len(c) == 1 else []
        cx.ob(len(e) == 2 and org(f, e[0]) == SIZE and org(f, e[1]) == COUNT, f, "a pool gets the chunk size and the number of chunks written for it", "file/pool", a)
    root = set()
    for p in pushes:
        root.add(f.root_of(p.ops[0]))
        e = p.ops[1:]
        if len(e) == 1:
            r = f.root_of(e[0])
            c = [w for w in f.writers(r) if w.op == "call" and re.search(r"SegmentEntry::SegmentEntry$", w.callee or "") and len(w.ops) >= 4] if isinstance(r, Ins) else []
            e = c[0].ops[1:] if len(c) == 1 else []
        ok = len(e) >= 3
        for n, x in (("reader", 0), ("writer", 1)):
            o = org(f, e[x]) if ok else None
            cx.ob(o == ("or", ("get", "get_as", SEG, n), ("group",)), f, "the %s group of a segment is the one written for it, or RouDi's own" % n, "file/" + n, p)
            if ok:
                w = [w for w in f.writers(f.root_of(e[x])) if w.op == "call" and re.search(r"string::string$", w.callee or "")] if isinstance(f.root_of(e[x]), Ins) else []
                cx.ob(all(len(i.ops) < 3 or org(f, i.ops[2]) == ("size", o) for i in w), f, "the name of the %s group is taken over in full" % n, "file/full/" + n, p)
        own = f.root_of(e[2]) if ok else None
        if isinstance(own, Ins) and own.op == "call" and re.search(r"^iox::expected::(value|operator\*|operator->)$", own.callee or "") and own.ops:
            own = f.root_of(own.ops[0])
        cx.ob(ok and (own in cfgs and len(cfgs) == 1 or cfgs <= set(copied(f, own))), f, "a segment gets the pools written for it", "file/own", p)
    # the result is that configuration
    tgt = [i for i in f.ins() if i.op == "call" and re.search(r"SegmentConfig::SegmentConfig$", i.callee or "") and f.path(i.ops[0]).startswith("arg0") and len(i.ops) == 2]
    req_some(cx, f, tgt, "the configuration read is returned", "file/result")
    for t in tgt:
        v, k = f.root_of(t.ops[1]), 0
        while k < 6 and v not in root:
            c = [w for w in f.writers(v) if w.op == "call" and re.search(r"SegmentConfig::SegmentConfig$", w.callee or "") and len(w.ops) == 2 and f.root_of(w.ops[0]) is v] if isinstance(v, Ins) else []
            if len(c) != 1:
                break
            v = f.root_of(c[0].ops[1])
            k += 1
        cx.ob(v in root, f, "the configuration returned is the one read from the file", "file/same", t)


def copied(f, r):
    """the pools this set of pools is a copy of, and itself"""
    rs = [r]
    for r in rs:
        for w in f_calls(f):
            if len(w.ops) > 1 and re.search(r"::(MePooConfig|vector|operator=)$|^std::move$|memcpy", w.callee or "") and f.root_of(w.ops[0]) is r and isinstance(f.root_of(w.ops[1]), Ins) and f.root_of(w.ops[1]) not in rs:
                rs.append(f.root_of(w.ops[1]))
    return rs


def f_calls(f):
    return [i for i in f.ins() if i.op == "call"]


@P.rule("R2", "the file named is the one read, a missing one is an error, and the options of the command line hold in every case", min=8)
def r2(cx):
    c = cx.fn("ctor")
    run = truth_of(load(r"^arg1\.run$"))
    given = truth_of(call(r"^iox::string::empty$", (0, r"^arg1\.configFilePath$")))
    there = truth_of(call(r"^iox::FileReader::isOpen$|is_open$"))
    ASG = call(r"^iox::string::operator=$", (0, r"^arg0\.m_customConfigFilePath$"))
    ev = {"opts": call(r"RouDiConfig::operator=$", (0, r"^arg0\.m_roudiConfig$")), "path": lambda i: ASG(i) and c.path(i.ops[1]) == "arg1.configFilePath", "def": lambda i: ASG(i) and c.path(i.ops[1]) != "arg1.configFilePath"}
    rows = table(c, ev, {"run": run, "none": given, "open": there, "fits": opt_has(call(r"^iox::into$"))})
    check_rows(cx, c, rows, lambda r: r.lit.get("run") is False or r.n("opts") == 1, "the options of the command line are kept", "file/opts")
    check_rows(cx, c, rows, lambda r: r.lit.get("run") is False or r.lit.get("none") is True or r.lit.get("none") is False and r.n("path") == 1 and r.n("def") == 0, "the file named on the command line is the one used", "file/named")
    check_rows(cx, c, rows, lambda r: r.lit.get("run") is False or r.lit.get("none") is not True or r.n("path") == 0 and (r.lit.get("open") is not None) and (r.n("def") == 1) == (r.lit.get("open") is True and r.lit.get("fits") is not False), "without a file named, the default one is used if it exists, and only then", "file/default")
    for i in matching(c, ev["opts"]):
        cx.ob(c.path(i.ops[1]) == "arg1.roudiConfig", c, "the options kept are those of the command line", "file/optsrc", i)
    f = next((x for x in cx.fns("parse") if not any(re.search(r"cpptoml::parser::parse$", i.callee or "") for i in f_calls(x))), None)
    if f is None:
        raise Broken("the reader of the configuration")
    E = cx.enum("iox::roudi::RouDiConfigFileParseError")
    INNER = call(r"TomlRouDiConfigFileProvider::parse$")
    none = truth_of(call(r"^iox::string::empty$", (0, r"^arg1\.m_customConfigFilePath$")))
    opened = truth_of(call(r"basic_ifstream::is_open$"))
    OPT = call(r"RouDiConfig::operator=$")
    ev = {"defaults": call(r"SegmentConfig::setDefaults$"), "opts": lambda i: OPT(i) and f.path(i.ops[1]) == "arg1.m_roudiConfig", "other": lambda i: OPT(i) and f.path(i.ops[1]) != "arg1.m_roudiConfig" or call(r"RouDiConfig::setDefaults$")(i), "read": INNER, "out": lambda i: i.op == "call" and re.search(r"SegmentConfig::SegmentConfig$", i.callee or "") and len(i.ops) == 2 and f.path(i.ops[0]).startswith("arg0")}
    rows = exp_rows(f, ev, {"none": none, "open": opened, "good": exp_ok(INNER, True)})
    cx.ob(len(rows) > 2, f, "a configuration is made with and without a file", "read/rows")

    def fine(r):
        n = r.lit.get("none")
        if n is True:
            return r.lit["ret"] == "ok" and r.n("defaults") == 1 and r.n("opts") == 1 and r.before("defaults", "opts") and r.before("other", "opts") and r.before("opts", "out") and r.n("read") == 0
        if n is not False:
            return False
        if r.lit.get("open") is not True:
            return r.lit.get("open") is False and r.lit["ret"] == "err" and isinstance(r.lit["val"], Val) and r.lit["val"].v == E["FILE_OPEN_FAILED"]
        if r.n("read") != 1 or r.n("defaults"):
            return False
        if r.lit.get("good") is True:
            return r.n("opts") == 1 and r.n("other") == 0 and r.before("opts", "out") and r.lit["ret"] != "err"
        return r.lit.get("good") is False and r.lit["ret"] != "ok"
    check_rows(cx, f, rows, fine, "without a file the built-in configuration is used, an unreadable file is refused, a readable one is parsed, and the command line's options apply in every case", "read/table")
    for i in matching(f, INNER):
        s = f.root_of(i.ops[-1])
        o = [w for w in f.writers(s) if w.op == "call" and re.search(r"basic_ifstream::(basic_ifstream|open)$", w.callee or "")] if isinstance(s, Ins) else []
        cx.ob(len(o) == 1 and re.search(r"arg1\.m_customConfigFilePath\)?$", f.path(o[0].ops[1])), f, "the file parsed is the one chosen", "read/file", i)
    for i in matching(f, ev["opts"]):
        r = f.root_of(i.ops[0])
        src = [r] if isinstance(r, Ins) else []
        outs = [x for x in matching(f, ev["out"])]
        cx.ob(bool(src) and any(reaches(f, o, src[0]) for o in outs), f, "the options are put into the configuration that is returned", "read/into", i)


def reaches(f, out, r):
    """the object the call out copies is r (or a copy of it, or the value held by it)"""
    v, k = f.root_of(out.ops[1]), 0
    if isinstance(r, Ins) and r.op == "call" and re.search(r"expected::value$", r.callee or ""):
        r = f.root_of(r.ops[0])
    while k < 6:
        if v is r:
            return True
        c = [w for w in f.writers(v) if w.op == "call" and re.search(r"SegmentConfig::SegmentConfig$", w.callee or "") and len(w.ops) == 2 and f.root_of(w.ops[0]) is v] if isinstance(v, Ins) and v.op == "alloca" else []
        if len(c) != 1:
            return False
        v = f.root_of(c[0].ops[1])
        k += 1
    return False


OPTIONS = {"h": ("help", None), "v": ("version", None), "m": ("monitoring-mode", "monitoringMode"), "l": ("log-level", "logLevel"), "d": ("domain-id", "domainId"),
           "u": ("unique-roudi-id", "uniqueRouDiId"), "x": ("compatibility", "compatibilityCheckLevel"), "t": ("termination-delay", "processTerminationDelay"), "k": ("kill-delay", "processKillDelay")}


def iterations(f, strs=True):
    """what one round of the option loop does: [(state, end)]"""
    OPT = call(r"^getopt_long$")
    FROM = call(r"^iox::convert::from_string$")
    EXPR = truth_of(call(r"hasExperimentalPoshFeaturesEnabled$"))
    has = opt_has(FROM)
    BASE = call(r"CmdLineParser::parse$")
    res = []

    def step(st, i):
        if OPT(i):
            if st.get("in"):
                res.append((dict(st), "next", i))
            st.clear()
            st["in"] = True
        elif i.op == "store":
            p = f.addr(i)
            if p.startswith("arg1.m_cmdLineArgs."):
                st[("w", p[len("arg1.m_cmdLineArgs."):])] = evalv(f, i.ops[0], st)
            elif p == "@optind":
                st["back"] = f.affine(i.ops[0]).get(1)
            elif store(EXP_TAG)(i):
                v = f.strip(i.ops[0])
                st["tag"] = v.v if isinstance(v, Val) and v.k == "c" else "?"
                if isinstance(v, Ins) and v.op == "load" and st.get("base") is not None and f.root_of(v.ops[0]) is f.root_of(st["base"].ops[0]):
                    st["tag"] = "base"  # the whole result is copied
            elif store(EXP_VAL)(i):
                st["val"] = f.strip(i.ops[0])
        elif i.op == "call" and i.ops and not re.search(r"(^|::)~", i.callee or ""):
            p = f.path(i.ops[0])
            if p.startswith("arg1.m_cmdLineArgs.") and re.search(r"::(operator=|assign|emplace)$|memcpy", i.callee or ""):
                st[("w", p[len("arg1.m_cmdLineArgs."):])] = i
            if BASE(i):
                st["base"] = i
                if f.path(i.ops[0]) == "arg0":
                    st["tag"] = "base"
        elif i.op == "ret":
            res.append((dict(st), "ret", i))
        return None

    def edge(st, k, pol):
        if k[0] == "eq" and isinstance(k[1], Ins) and OPT(k[1]) and isinstance(k[2], Val) and k[2].k == "c":
            c = k[2].v if k[2].v < 256 else -1
            if pol:
                if st.get("opt", c) != c or c in st.get("not", ()):
                    return False
                st["opt"] = c
            else:
                if st.get("opt") == c:
                    return False
                st["not"] = tuple(sorted(set(st.get("not", ()) + (c,))))
        same = None
        if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "call" and k[1].callee == "strcmp" and isnull0(k[2]):
            same = pol
        if k[0] == "b" and isinstance(k[1], Ins) and k[1].op == "call" and len(k[1].ops) == 2 and re.search(r"\bstd::operator(==|!=)", k[1].full or "") and ("g", "optarg") in [org(f, x) for x in k[1].ops]:
            l = [org(f, x) for x in k[1].ops]
            same = pol == ("operator==" in k[1].full)
            t = [x[1] for x in l if x[0] == "str"]
            if len(t) == 1:
                if same:
                    if t[0] in st.get("nstr", ()):
                        return False
                    st["str"] = t[0]
                else:
                    st["nstr"] = tuple(sorted(set(st.get("nstr", ()) + (t[0],))))
            else:
                st["odd"] = True
        elif same is not None:
            l = [f.strip(x) for x in k[1].ops]
            s = [x.x["str"] for x in l if isinstance(x, Val) and x.k == "g" and isinstance(x.x, dict) and "str" in x.x]
            o = [x for x in l if isinstance(x, Ins) and f.path(x) == "*@optarg"]
            if len(s) == 1 and len(o) == 1:
                if pol:
                    if s[0] in st.get("nstr", ()):
                        return False
                    st["str"] = s[0]
                else:
                    st["nstr"] = tuple(sorted(set(st.get("nstr", ()) + (s[0],))))
            else:
                st["odd"] = True
        t = has(k, pol)
        if t is not None:
            if st.get("has", t) is not t:
                return False
            st["has"] = t
        t = EXPR(k, pol)
        if t is not None:
            st["exp"] = t
        # an object of the parser is not the temporary assigned to it
        if k[0] == "eq" and pol and isinstance(k[1], Ins) and isinstance(k[2], Ins):
            a = [f.root_of(x) for x in k[1:3]]
            if sum(1 for x in a if isinstance(x, Ins) and x.op == "alloca") == 1 and any(isinstance(x, Val) and x.k == "arg" for x in a):
                return False
        # mode
        if k[0] == "eq" and isinstance(k[1], Val) and k[1].k == "arg" and k[1].v == 4 and isinstance(k[2], Val) and k[2].k == "c":
            st["one"] = pol if k[2].v == 1 else not pol if k[2].v == 0 else st.get("one")
        if k[0] == "b" and isinstance(k[1], Val) and k[1].k == "arg" and k[1].v == 4:
            st["one"] = pol
        if k[0] == "eq" and isinstance(k[2], Val) and k[2].k == "c" and k[2].v in (0, 1) and isinstance(k[1], Ins) and k[1].op == "load":
            r = f.root_of(k[1].ops[0])
            b = st.get("base")
            if b is not None and (f.root_of(b.ops[0]) is r or f.path(b.ops[0]) == "arg0" and store_path(f, k[1]) ) and re.search(r"(m_type_index|\+\d+)$", f.path(k[1].ops[0])):
                t = pol == (k[2].v == 0)
                if st.get("good", t) is not t:
                    return False
                st["good"] = t
        return None
    todo, ph = [i.ops[0] for i in f.ins() if i.op == "store" and f.addr(i).startswith("arg1.m_cmdLineArgs.")], set()
    while todo:
        v = f.strip(todo.pop())
        if isinstance(v, Ins) and v.op in ("phi", "zext", "select", "trunc", "xor", "icmp") and v.id not in ph:
            ph.add(v.id)
            todo += v.ops
    f.simulate({}, step, edge, phis=ph)
    return res


def evalv(f, v, st, depth=0):
    """the constant v is on this path, as far as what was found out about the parameter decides it"""
    v = res(f, v, st)
    if isinstance(v, Val) or depth > 6 or not isinstance(v, Ins):
        return v
    if v.op in ("zext", "trunc"):
        x = evalv(f, v.ops[0], st, depth + 1)
        return x if isinstance(x, Val) else v
    if v.op == "select":
        c = evalv(f, v.ops[0], st, depth + 1)
        return evalv(f, v.ops[1] if c.v else v.ops[2], st, depth + 1) if isinstance(c, Val) and c.k == "c" else v
    if v.op == "xor":
        a, b = (evalv(f, x, st, depth + 1) for x in v.ops)
        return Val("c", (a.v ^ b.v) & 1) if isinstance(a, Val) and isinstance(b, Val) and a.k == b.k == "c" else v
    if v.op == "icmp":
        k, pol = f.lit(v)
        if k[0] == "eq" and isinstance(k[1], Ins) and k[1].op == "call" and k[1].callee == "strcmp" and isnull0(k[2]):
            s = [x.x["str"] for x in (f.strip(y) for y in k[1].ops) if isinstance(x, Val) and x.k == "g" and isinstance(x.x, dict) and "str" in x.x]
            if s and st.get("str") == s[0]:
                return Val("c", int(pol))
            if s and (s[0] in st.get("nstr", ()) or "str" in st):
                return Val("c", int(not pol))
    return v


def store_path(f, ld):
    return re.search(EXP_TAG, f.path(ld.ops[0])) is not None


def isnull0(v):
    return isinstance(v, Val) and (v.k == "null" or v.k == "c" and v.v == 0)


def writes(st):
    return {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == "w"}


def payload(f, v, depth=0):
    """the from_string call whose value v is"""
    s = f.strip(v)
    if not isinstance(s, Ins) or depth > 6:
        return None
    if s.op in ("extractvalue", "zext"):
        return payload(f, s.ops[0], depth + 1)
    if s.op == "call" and re.search(r"Duration::fromSeconds$", s.callee or ""):
        c = payload(f, s.ops[-1], depth + 1)
        return c and ("s", c)
    if s.op == "load":
        r = f.root_of(s.ops[0])
        if isinstance(r, Ins) and r.op == "alloca":
            for w in f.writers(r):
                if w.op == "call" and re.search(r"^iox::convert::from_string$", w.callee or "") and f.root_of(w.ops[0]) is r and f.path(s.ops[0]) != f.path(w.ops[0]):
                    return w
    return None


def table_of(cx, f, exp, tag):
    """the options are announced to getopt_long under their letters and names, with a parameter where one is used"""
    for g in matching(f, call(r"^getopt_long$")):
        s = org(f, g.ops[2])
        got = dict((m.group(1), m.group(2) == ":") for m in re.finditer(r"(\w)(:?)", s[1])) if s[0] == "str" else None
        cx.ob(got == {k: v[1] is not None for k, v in exp.items()}, f, "each option is known under its letter, with a parameter where it takes one", tag + "/short", g)
        r = f.root_of(g.ops[3])
        l = None
        src = [r] if isinstance(r, Val) else [f.root_of(w.ops[1]) for w in f.writers(r) if w.op == "call" and MEMCPY.search(w.callee or "")]
        for x in src:
            if isinstance(x, Val) and x.k == "g" and isinstance(x.x, dict):
                l = x.x.get("options")
        cx.ob(l is not None and {(n, a, c) for n, a, c in l if n} == {(v[0], int(v[1] is not None), ord(k)) for k, v in exp.items()} and not l[-1][0], f, "each option is known under its name, with a parameter where it takes one", tag + "/long", g)
        cx.ob(v_arg(2)(f.strip(g.ops[0])) and v_arg(3)(f.strip(g.ops[1])), f, "the options are those given", tag + "/argv", g)


def camel(s):
    return "".join(x.capitalize() for x in s.lower().split("_"))


@P.rule("R3", "an option of the command line sets what it names to what was given, an invalid one is refused", min=30)
def r3(cx):
    f = cx.fn("cmd")
    R = cx.enum("iox::config::CmdLineParserResult")
    M, L, X = cx.enum("iox::roudi::MonitoringMode"), cx.enum("iox::log::LogLevel"), cx.enum("iox::version::CompatibilityCheckLevel")
    names = {"m": {k.lower(): v for k, v in M.items()}, "l": {{"Warn": "warning"}.get(k, k.lower()): v for k, v in L.items()},
             "x": {(camel(k)[0].lower() + camel(k)[1:]): v for k, v in X.items()}}
    table_of(cx, f, OPTIONS, "cmd")
    it = iterations(f)
    cx.ob(len(it) > 20, f, "the options are gone through", "cmd/rounds")
    seen = set()
    for st, end, at in it:
        o = st.get("opt")
        w = {k: v for k, v in writes(st).items()}
        refused = end == "ret" and st.get("tag") == 1
        val = st.get("val")
        inval = refused and isinstance(val, Val) and val.v == R["INVALID_PARAMETER"]
        d = chr(o) if isinstance(o, int) and o > 0 else o
        desc = "option %s, value %s%s" % (d, st.get("str", "-"), "" if st.get("has") is None else ", number %s" % st["has"])
        flds = {re.sub(r"\+\d+$", "", k.split(".")[1] if k.startswith("roudiConfig.") else k) for k in w}
        if o is None:
            ok = refused and isinstance(val, Val) and val.v == R["UNKNOWN_OPTION_USED"] and not w if set(st.get("not", ())) >= {-1} | {ord(x) for x in OPTIONS} else None
            cx.ob(ok is True, f, "an unknown option is refused, and every known one has its own effect", "cmd/unknown", at)
            continue
        if o == -1:
            cx.ob(end == "ret" and st.get("tag") == 0 and not w, f, "at the end of the options the parameters are handed out", "cmd/end", at)
            seen.add(-1)
            continue
        if d not in OPTIONS:
            cx.ob(False, f, "option '%s' is not a documented one" % d, "cmd/extra", at)
            continue
        if refused:
            no = d in names and set(st.get("nstr", ())) >= set(names[d]) and "str" not in st or d in "dutk" and st.get("has") is False
            cx.ob(inval and not w and no, f, "a parameter is refused exactly if it is invalid (%s)" % desc, "cmd/refuse/" + d, at)
            seen.add((d, "no"))
            continue
        if d in "hv":
            ok = set(w) == {"run"} and isinstance(w["run"], Val) and w["run"].v == 0
            seen.add((d, "yes"))
        elif d in names:
            v = w.get("roudiConfig." + OPTIONS[d][1])
            ok = flds == {OPTIONS[d][1]} and isinstance(v, Val) and "str" in st and names[d].get(st["str"]) == v.v and not st.get("odd")
            seen.add((d, st.get("str")))
        else:
            p = [payload(f, x) for x in w.values()]
            skip = d == "d" and st.get("exp") is False
            if skip:
                ok = not w and st.get("has") is True
            else:
                ok = flds == {OPTIONS[d][1]} and st.get("has") is True and all(p) and all(isinstance(x, tuple) == (d in "tk") for x in p) and (d != "d" or st.get("exp") is True)
                for x in p:
                    c = x[1] if isinstance(x, tuple) else x
                    ok = ok and c is not None and f.path(f.strip(c.ops[-1])) == "*@optarg" and width(f, c) == (2 if d in "du" else 4)
                if d in "tk":
                    ok = ok and len(w) == 2 and all(fieldno(f, v) == (0 if not re.search(r"\+8$", k) else 1) for k, v in w.items())
            seen.add((d, "yes"))
        cx.ob(ok, f, "an option sets what it names, and nothing else, to what was given (%s, sets %s)" % (desc, sorted(flds)), "cmd/set/" + d, at)
        if end == "next":
            cx.ob(st.get("one") is False, f, "only one option is taken if only one was asked for", "cmd/one", at)
        else:
            cx.ob(st.get("one") is True and st.get("tag") == 0, f, "the options after a valid one are taken, too", "cmd/all", at)
    want = {-1} | {(d, "yes") for d in "hvdutk"} | {(d, "no") for d in "mlxdutk"} | {(d, s) for d in names for s in names[d]}
    for x in sorted(map(str, want - seen)):
        cx.ob(False, f, "an option or value is not recognised: %s" % x, "cmd/known")
    cx.ob(not (want - seen), f, "all options and values are recognised", "cmd/complete")


def fieldno(f, v):
    s = f.strip(v)
    return s.d.get("ix", [None])[0] if isinstance(s, Ins) and s.op == "extractvalue" else None


def width(f, c):
    m = re.search(r"from_string<([^,>]*)", c.full or "")
    return {"unsigned short": 2, "unsigned int": 4}.get(m.group(1)) if m else None


@P.rule("R4", "the option for the configuration file is taken, all others are passed on and their refusal is final", min=10)
def r4(cx):
    f = cx.fn("cfo")
    table_of(cx, f, {"h": OPTIONS["h"], "c": ("config-file", "configFilePath")}, "cfo")
    seen = set()
    for st, end, at in iterations(f):
        o, w, b = st.get("opt"), writes(st), st.get("base")
        goes = end == "next" and st.get("one") is False or end == "ret" and st.get("one") is True and st.get("tag") == 0
        if o == -1:
            cx.ob(end == "ret" and st.get("tag") == 0 and not w, f, "at the end of the options the parameters are handed out", "cfo/end", at)
        elif o == ord("c"):
            v = w.get("configFilePath")
            ok = set(w) == {"configFilePath"} and isinstance(v, Ins) and v.op == "call" and org(f, v.ops[1]) == ("g", "optarg") and b is None and goes
            cx.ob(ok, f, "the configuration file is the one named", "cfo/file", at)
        else:
            h = o == ord("h")
            if not h and not set(st.get("not", ())) >= {-1, ord("h"), ord("c")}:
                cx.ob(False, f, "an option is treated specially", "cfo/extra", at)
                continue
            ok = b is not None and st.get("back") in (-1, 0xffffffff) and f.path(b.ops[1]) == "arg1" and v_arg(2)(f.strip(b.ops[2])) and v_arg(3)(f.strip(b.ops[3])) and (h or v_const(1)(f.strip(b.ops[4])))
            cx.ob(ok, f, "any other option is looked at again by the common parser, one at a time", "cfo/pass", at)
            if st.get("good") is False:
                t, v = st.get("tag"), st.get("val")
                fwd = t == "base" or t == 1 and isinstance(v, Ins) and v.op == "load" and b is not None and f.root_of(v.ops[0]) is f.root_of(b.ops[0])
                cx.ob(end == "ret" and fwd and not w, f, "what the common parser refuses is refused", "cfo/refuse", at)
            else:
                ok = st.get("good") is True and (set(w) == {"run"} and isinstance(w["run"], Val) and w["run"].v == 0 if h else not w)
                cx.ob(ok and (goes or h and end == "ret" and st.get("one") is not False), f, "what the common parser accepts is kept", "cfo/accept", at)
        seen.add((o if o in (-1, ord("c"), ord("h")) else "other", st.get("good")))
    want = {(-1, None), (ord("c"), None), (ord("h"), True), (ord("h"), False), ("other", True), ("other", False)}
    cx.ob(want <= seen, f, "the options are told apart", "cfo/complete")


@P.rule("R5", "RouDi starts with exactly the configuration read, and not at all with an invalid one", min=15)
def r5(cx):
    m = cx.fn("main")
    CMD, FILEC, FP = call(r"CmdLineParserConfigFileOption::parse$"), call(r"TomlRouDiConfigFileProvider::TomlRouDiConfigFileProvider$"), call(r"TomlRouDiConfigFileProvider::parse$")
    APP, RUN = call(r"IceOryxRouDiApp::IceOryxRouDiApp$"), call(r"IceOryxRouDiApp::run$")
    run = truth_of(lambda i: i.op == "load" and m.path(i.ops[0]).endswith(".run"))
    rows = bool_rows(m, {"cmd": CMD, "prov": FILEC, "file": FP, "app": APP, "run": RUN}, {"cmdok": exp_ok(CMD, True), "go": run, "fileok": exp_ok(FP, True)})
    cx.ob(len(rows) > 2, m, "RouDi is started or refuses", "main/rows")

    def fine(r):
        want = r.lit.get("cmdok") is True and r.lit.get("go") is True and r.lit.get("fileok") is True
        return r.n("cmd") == 1 and r.n("app") == r.n("run") == int(want) and (r.lit.get("cmdok") is True or r.n("prov") == 0)
    check_rows(cx, m, rows, fine, "RouDi runs exactly if the command line and the configuration file are valid and it is asked to run", "main/table")

    def code(r):
        v = m.strip(r.ret.ops[0]) if r.ret.ops else None
        for _ in range(6):
            if isinstance(v, Ins) and v.op == "phi":
                v = r.st.get(("phi", v.id), v)
                v = m.strip(v) if isinstance(v, Ins) else v
        failed = r.lit.get("cmdok") is False or r.lit.get("fileok") is False
        return not failed or isinstance(v, Val) and v.k == "c" and v.v != 0
    check_rows(cx, m, rows, code, "an invalid command line or configuration file is reported by the exit code", "main/code")
    for i in matching(m, FILEC):
        cx.ob(holder(m, i.ops[1], CMD), m, "the configuration is looked up with the parameters of the command line", "main/args", i)
    for i in matching(m, APP):
        cx.ob(holder(m, i.ops[1], FP), m, "RouDi is created with the configuration read", "main/config", i)
    for i in matching(m, FP):
        o = m.root_of(i.ops[-1])
        cx.ob(any(m.root_of(x.ops[0]) is o for x in matching(m, FILEC)), m, "the configuration is read by the provider given the command line", "main/prov", i)
    a = cx.fn("app")
    CHK = call(r"checkAndOptimizeConfig$")
    chk = cx.fn("check")
    NOSEG = truth_of(call(r"^iox::vector::empty$", (0, r"^arg1\.m_sharedMemorySegments$")))
    EMP = [i for i in f_calls(chk) if re.search(r"^iox::vector::empty$", i.callee or "") and re.search(r"m_mempoolConfig\.m_mempoolConfig$", chk.path(i.ops[0]))]
    req_some(cx, chk, EMP, "a segment without pools is looked for", "app/pools")
    NOPOOL = truth_of(lambda i: i in EMP)
    for e in EMP:
        w = covers_vec(chk, e, chk.root_of(e.ops[0]), r"^arg1\.m_sharedMemorySegments$", holds(NOPOOL))
        cx.ob(w is None, chk, "every segment is looked at%s" % ("" if w is None else " (%s)" % w), "app/each", e)
    lits = {"noseg": NOSEG, "nopool": NOPOOL}
    rows = split_bool(chk, bool_rows(chk, {}, lits), lits)
    check_rows(cx, chk, rows, lambda r: r.lit["ret"] is not (r.lit.get("noseg") is True or r.lit.get("nopool") is True) and isinstance(r.lit["ret"], bool), "a configuration is valid exactly if it has segments and each of them has pools", "app/valid")
    req_some(cx, chk, matching(chk, call(r"^iox::vector::empty$", (0, r"^arg1\.m_sharedMemorySegments$"))), "a configuration without segments is looked for", "app/segs")
    for n, p in (("domainId", r"^arg0\.m_config.*domainId\.m_value$"), ("uniqueRouDiId", r"^arg0\.m_config.*uniqueRouDiId\.m_value$")):
        s = [i for i in a.ins() if i.op == "store" and re.search(p, a.addr(i))]
        cx.ob(len(s) >= 1 and all(re.search(r"^\*arg1.*" + n, a.path(i.ops[0])) for i in s), a, "the application keeps the %s of its configuration" % n, "app/keep/" + n)
    v = [i for i in f_calls(a) if re.search(r"vector::vector$|SegmentConfig::SegmentConfig$", i.callee or "") and re.search(r"^arg0\.m_config", a.path(i.ops[0]))]
    cx.ob(len(v) == 1 and a.path(v[0].ops[1]).startswith("arg1"), a, "the application keeps the segments of its configuration", "app/keep/segments")
    z = cx.fn("run")
    RT = truth_of(load(r"^arg0\.m_run$"))
    NEW = call(r"^iox::roudi::(IceOryxRouDiComponents::IceOryxRouDiComponents|RouDi::RouDi)$")
    l = matching(z, NEW)
    req_some(cx, z, l, "RouDi and its components are created", "run/some")
    for i in l:
        req_guard(cx, z, i, holds(RT), "RouDi is created only with a valid configuration", "run/guard")
        cx.ob(any(z.path(x).startswith("arg0.m_config") for x in i.ops), z, "RouDi and its components are created with the application's configuration", "run/config", i)


def holder(f, v, src):
    """v is the value held by the expected that src wrote"""
    r = f.root_of(v)
    if isinstance(r, Ins) and r.op == "call" and re.search(r"expected::value$", r.callee or ""):
        r = f.root_of(r.ops[0])
    return isinstance(r, Ins) and any(w.op == "call" and src(w) and f.root_of(w.ops[0]) is r for w in f.writers(r))



def carries(f, v, rx):
    """v is (a copy of) the field at rx"""
    if re.search(rx, f.path(v).lstrip("*")):
        return True
    r = f.root_of(v)
    if not (isinstance(r, Ins) and r.op == "alloca"):
        return False
    w = [w for w in f.writers(r) if not re.search(r"(^|::)~", w.callee or "")]
    src = [w.ops[0] if w.op == "store" else w.ops[1] for w in w if w.op == "store" or w.op == "call" and f.root_of(w.ops[0]) is r and len(w.ops) > 1 and (MEMCPY.search(w.callee or "") or re.search(r"(\w+)::\1$|operator=$", w.callee or ""))]
    return bool(src) and all(re.search(rx, f.path(f.strip(x)).lstrip("*")) for x in src)


@P.rule("R6", "each part of RouDi gets the part of the configuration that concerns it", min=14)
def r6(cx):
    def gets(f, rx, at, want, what, tag):
        l = matching(f, call(rx))
        req_some(cx, f, l, what, tag + "/some")
        for i in l:
            cx.ob(len(i.ops) > at and carries(f, i.ops[at], want), f, what, tag, i)
        on_all_returns(cx, f, call(rx), what, tag + "/always")
    f = cx.fn("c1")
    gets(f, r"IceOryxRouDiMemoryManager::IceOryxRouDiMemoryManager$", 1, r"^arg1$", "the memory is set up with RouDi's configuration", "part/memory")
    MADE = call(r"::createAndAnnounceMemory$")
    rows = table(f, {"made": MADE, "port": call(r"PortManager::PortManager$")}, {"good": exp_ok(MADE, True)})
    check_rows(cx, f, rows, lambda r: r.n("made") == 1 and r.lit.get("good") is True and r.before("made", "port"), "RouDi goes on only with the memory its configuration asks for", "part/made")
    f = cx.fn("c2")
    gets(f, r"DefaultRouDiMemory::DefaultRouDiMemory$", 1, r"^arg1$", "the memory of RouDi is set up with its configuration", "part/default")
    gets(f, r"PortPoolMemoryBlock::PortPoolMemoryBlock$", 1, r"^arg1.*\.uniqueRouDiId(\.m_value)?$", "ports carry the identity of RouDi that was configured", "part/id")
    gets(f, r"^iox::iceoryxResourcePrefix$", 1, r"^arg1.*\.domainId(\.m_value)?$", "the lock of RouDi is that of its domain", "part/lock")
    gets(f, r"MemoryProvider::addMemoryBlock$", 2, r"^arg0\.m_portPoolBlock$", "the port pool is part of the management memory", "part/pool")
    gets(f, r"RouDiMemoryManager::addMemoryProvider$", 2, r"^arg0\.m_defaultMemory\.m_managementShm$", "the management memory is created", "part/shm")
    f = cx.fn("c3")
    gets(f, r"MemPoolSegmentManagerMemoryBlock::MemPoolSegmentManagerMemoryBlock$", 1, r"^arg1(\.m_sharedMemorySegments)?$", "the segments are those configured", "part/segments")
    gets(f, r"MemPoolSegmentManagerMemoryBlock::MemPoolSegmentManagerMemoryBlock$", 2, r"^arg1.*\.domainId(\.m_value)?$", "the segments are created in the domain configured", "part/segdomain")
    gets(f, r"PosixShmMemoryProvider::PosixShmMemoryProvider$", 2, r"^arg1.*\.domainId(\.m_value)?$", "the management memory is created in the domain configured", "part/domain")
    for n in ("m_introspectionMemPoolBlock", "m_discoveryMemPoolBlock", "heartbeatPoolBlock", "m_segmentManagerBlock"):
        on_all_returns(cx, f, call(r"MemoryProvider::addMemoryBlock$", (2, r"^arg0\.%s$" % n)), "%s is part of the management memory" % n, "part/block/" + n)
    for n, b in (("introspectionChunkCount", "m_introspectionMemPoolBlock"), ("discoveryChunkCount", "m_discoveryMemPoolBlock")):
        for c in matching(f, call(r"MemPoolCollectionMemoryBlock::MemPoolCollectionMemoryBlock$", (0, r"^arg0\.%s$" % b))):
            rs = copied(f, f.root_of(c.ops[1]))
            e = []
            for p in matching(f, call(r"vector::(push_back|emplace_back)$|addMemPool$")):
                if f.root_of(p.ops[0]) in rs:
                    x = f.root_of(p.ops[1]) if len(p.ops) == 2 else None
                    k = [w for w in f.writers(x) if w.op == "call" and re.search(r"Entry::Entry$", w.callee or "")] if isinstance(x, Ins) else []
                    e += [w.ops[2] for w in k] if k else [p.ops[-1]]
            cx.ob(bool(e) and all(carries(f, x, r"^arg1.*\.%s$" % n) for x in e), f, "RouDi's own pools have the number of chunks configured (%s)" % n, "part/chunks/" + n, c)
    f = cx.fn("c4")
    CFG = r"^(arg3|arg0\.m_roudiConfig)\.%s(\.m_value)?$"
    PM = r"(smart_lock::smart_lock|ProcessManager::ProcessManager)$"
    l = [i for i in matching(f, call(PM)) if re.search(r"^arg0\.m_prcMgr", f.path(i.ops[0]))]
    req_some(cx, f, l, "the processes are managed", "part/prc/some")
    for i in l:
        for n in ("domainId", "compatibilityCheckLevel"):
            cx.ob(any(carries(f, x, CFG % n) for x in i.ops[1:]), f, "the processes are managed with the %s configured" % n, "part/prc/" + n, i)
    s = [i for i in f.ins() if i.op == "store" and f.addr(i) == "arg0.m_roudiConfig.domainId.m_value"]
    c = [i for i in f_calls(f) if re.search(r"RouDiConfig::RouDiConfig$", i.callee or "") and f.path(i.ops[0]) == "arg0.m_roudiConfig"]
    cx.ob(bool(s or c) and all(re.search(r"^\*?arg3", f.path(i.ops[0])) for i in s) and all(f.path(i.ops[1]) == "arg3" for i in c), f, "RouDi keeps the configuration it was given", "part/keep")
    a = cx.fn("add")
    PB = call(r"^iox::vector::(push_back|emplace_back)$", (0, r"^arg0\.m_mempoolConfig$"))
    check_rows(cx, a, table(a, {"push": PB}), lambda r: r.n("push") == 1, "a pool added is there afterwards, or RouDi ends", "part/add")
    for i in matching(a, PB):
        if len(i.ops) == 2:
            r = a.root_of(i.ops[1])
            v = [a.strip(w.ops[0]) for w in a.writers(r) if w.op == "store"] if isinstance(r, Ins) else [r]
            cx.ob(bool(v) and all(isinstance(x, Val) and x.k == "arg" or re.search(r"^\*?arg1", a.path(x)) for x in v), a, "the pool added is the one given", "part/entry", i)


@P.rule("R7", "RouDi ends its applications after the delays configured, and not when it shares its process with them", min=10)
def r7(cx):
    f = cx.fn("end")
    TIMER = call(r"^iox::deadline_timer::deadline_timer$")
    EXP = call(r"^iox::deadline_timer::hasExpired$")
    ASK, KILL, GONE = (call(r"ProcessManager::%s$" % n) for n in ("requestShutdownOfAllProcesses", "killAllProcesses", "printWarningForRegisteredProcessesAndClearProcessList"))
    PROBE, COUNT = call(r"ProcessManager::probeRegisteredProcessesAliveWithSigTerm$"), call(r"ProcessManager::registeredProcessCount$")
    JOIN = call(r"^std::thread::join$", (0, r"^arg0\.m_monitoringAndDiscoveryThread$"))
    JOIN2 = call(r"^std::thread::join$", (0, r"^arg0\.m_handleRuntimeMessageThread$"))
    ABLE = lambda n: truth_of(call(r"^std::thread::joinable$", (0, r"^arg0\.%s$" % n)))
    SHARES = truth_of(lambda i: i.op == "load" and f.addr(i) == "arg0.m_roudiConfig.sharesAddressSpaceWithApplications")

    def timer(n):
        return lambda i: TIMER(i) and carries(f, i.ops[1], r"^arg0\.m_roudiConfig\.%s$" % n)

    def on(t):
        rs = {id(f.root_of(i.ops[0])) for i in matching(f, t)}
        return lambda i: EXP(i) and id(f.root_of(i.ops[0])) in rs
    for n, i in [("ask", i) for i in matching(f, ASK)] + [("probe", i) for i in matching(f, PROBE)] + [("kill", i) for i in matching(f, KILL)] + [("gone", i) for i in matching(f, GONE)]:
        req_guard(cx, f, i, holds(SHARES, False), "applications RouDi shares its process with are not ended by it", "end/shares/" + n, loop=False)
    req_some(cx, f, matching(f, ASK), "applications still there when RouDi ends are asked to end", "end/ask/some")
    req_some(cx, f, matching(f, KILL), "applications which do not end are ended", "end/kill/some")
    on_all_returns(cx, f, ASK, "applications still there when RouDi ends are asked to end", "end/ask", holds(SHARES))
    none = lambda k, pol: f_none(f, k, pol, COUNT)
    for i in matching(f, ASK):
        req_before(cx, f, i, timer("processTerminationDelay"), "applications are given the delay configured before they are asked to end", "end/delay")
        req_guard(cx, f, i, either(holds(truth_of(on(timer("processTerminationDelay")))), none), "applications are asked to end when the delay configured has passed, or none is left", "end/wait", loop=False)
        req_never_after(cx, f, i, JOIN, "applications are asked to end when RouDi does not look for applications any more", "end/join")
    for i in matching(f, PROBE):
        req_before(cx, f, i, ASK, "applications are asked to end after the delay configured, and not sooner", "end/asked")
    for i in matching(f, KILL):
        req_before(cx, f, i, timer("processKillDelay"), "applications are given the delay configured before they are ended", "end/kill/delay")
        req_before(cx, f, i, ASK, "applications are asked to end before they are ended", "end/kill/asked")
        req_guard(cx, f, i, holds(truth_of(on(timer("processKillDelay")))), "applications are ended only when the delay configured has passed", "end/kill/wait", loop=False)
        req_guard(cx, f, i, holds(truth_of(PROBE)), "applications are ended only when they still run", "end/kill/alive", loop=False)
    for i in matching(f, timer("processKillDelay")):
        req_before(cx, f, i, ASK, "the delay for ending starts when the applications are asked to end", "end/kill/start")
    for t in matching(f, TIMER):
        cx.ob(timer("processTerminationDelay")(t) or timer("processKillDelay")(t), f, "only the delays configured are waited for", "end/timer", t)
    for n, j in (("m_monitoringAndDiscoveryThread", JOIN), ("m_handleRuntimeMessageThread", JOIN2)):
        on_all_returns(cx, f, j, "the threads of RouDi have ended when it has", "end/thread/" + n, holds(ABLE(n), False))
    for a, n in (("m_runMonitoringAndDiscoveryThread", JOIN), ("m_runHandleRuntimeMessageThread", JOIN2)):
        off = lambda i, a=a: i.op == "call" and re.search(r"^(iox::concurrent::Atomic|std::atomic|std::__atomic_base)::(operator=|store|exchange)$", i.callee or "") is not None and re.search(r"^arg0\.%s\b" % a, f.path(i.ops[0])) is not None and isinstance(f.strip(i.ops[1]), Val) and f.strip(i.ops[1]).v in (0, False)
        for i in matching(f, n):
            req_before(cx, f, i, off, "a thread that is waited for has been told to end", "end/told/" + a)
    g = cx.fn("chan")
    l = matching(g, call(r"IpcInterfaceCreator::create$"))
    req_some(cx, g, l, "RouDi listens", "chan/some")
    for i in l:
        cx.ob(any(carries(g, x, r"^arg0\.m_roudiConfig\.domainId(\.m_value)?$") for x in i.ops), g, "RouDi listens in the domain configured", "chan/domain", i)


def f_none(f, k, pol, COUNT):
    if k[0] == "eq" and isinstance(k[1], Ins) and COUNT(k[1]) and isinstance(k[2], Val) and k[2].k == "c" and k[2].v == 0:
        return pol is True
    if k[0] in ("ult", "lt", "slt") and isinstance(k[1], Ins) and COUNT(k[1]) and isinstance(k[2], Val) and k[2].v == 1:
        return pol is True
    if k[0] in ("ult", "lt", "slt") and isinstance(k[2], Ins) and COUNT(k[2]) and isinstance(k[1], Val) and k[1].v == 0:
        return pol is False
    return False


@P.rule("R8", "whatever the TOML library throws is reported as an error", min=2)
def r8(cx):
    src = S + "roudi_config_toml_file_provider.cpp"
    u = Unit(src)
    out = u.escapes("cpptoml::")
    if not out:
        raise Broken("nothing of the TOML library throws")
    todo, seen = [f for f in u.fns if re.match(r"iox::config::TomlRouDiConfigFileProvider::parse\(", u.name[f])], set()
    if not todo:
        raise Broken("the parser of the configuration file")
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for s in u.sites[f]:
            c = s["callee"]
            if c in out and not s["quiet"]:
                # passed on by a function that lets exceptions through: its callers are looked at instead
                ok = s["caught"] or f in out and not re.match(r"iox::config::TomlRouDiConfigFileProvider::parse\(", u.name[f])
                cx.ob(ok, u.name[f].split("(")[0], "an exception of the TOML library does not end RouDi without an error", "throw/%s" % re.sub(r"<.*", "", u.name[c].split("(")[0])[-40:], "%s:%s" % (src, s["line"]))
            if c in u.fns and "iox::" in u.name[c].split("(")[0]:
                todo.append(c)
