from engine.core import Prop
from engine.absint import Interp, Sym, L, S, K, M64, provably_ge0
from rules.lib import *

P = Prop("P03")
P.explain = """
Abstract interpretation (linear forms with bounds and congruences) of ChunkSettings::create and of the ChunkHeader constructor
fed with the settings that create produced: for each of the 32 possible payload alignments, user-header sizes 0 and 8k+r for
all r and symbolic k, symbolic payload size and symbolic chunk address (a multiple of 8).  The forms decide fit, alignment,
disjointness, the back-offset, overflow.  Guard and decision rules cover the accessors and the refusal of bad alignments."""
P.assume = ["chunk memory is aligned to the alignment of ChunkHeader (MemPool, P02) and at least requiredChunkSize() large (P02 R4)"]
M = "iceoryx_posh/source/mepoo/"
P.group("ch", [M + "chunk_header.cpp", M + "chunk_settings.cpp"], opaque=[r"isPowerOfTwo$"], pure=[r"isPowerOfTwo$"])
P.group("p2", [M + "chunk_settings.cpp"])
CH = "iox::mepoo::ChunkHeader::"
CS = "iox::mepoo::ChunkSettings::"
P.root("ch", "ctor", CH + "ChunkHeader")
P.root("ch", "create", CS + "create")
P.root("p2", "pow2", r"iox::isPowerOfTwo")
for n in ("userPayload", "userHeader", "fromUserPayload", "fromUserHeader", "usedSizeOfChunk", "chunkSize"):
    P.root("ch", n, CH + n)
SET = ("requiredChunkSize", "userPayloadSize", "userPayloadAlignment", "userHeaderSize", "userHeaderAlignment")
for n in SET:
    P.root("ch", "s_" + n, CS + n)
HDR = 48  # replaced by the constant found in userHeader()


def fieldmap(cx):
    """settings getter -> (field name, offset)"""
    m = {}
    for n in SET:
        f = cx.fn("s_" + n)
        v = f.strip(f.rets()[0].ops[0])
        if not (isinstance(v, Ins) and v.op == "load"):
            return None
        a = f.strip(v.ops[0])
        m[n] = (a.fld, a.d.get("off"))
    return m


def header_size(cx):
    """sizeof(ChunkHeader): distance of the user header from the chunk header"""
    for f in cx.fns("userHeader"):
        for i in f.ins():
            if i.op == "ret":
                for v in ([i.ops[0]] if not (isinstance(f.strip(i.ops[0]), Ins) and f.strip(i.ops[0]).op == "phi") else f.strip(i.ops[0]).ops):
                    a = f.affine(v)
                    if a.get(("arg", 0)) == 1:
                        return a.get(1, 0)
    return None


def pow2(i, vs):
    if i.callee and i.callee.endswith("isPowerOfTwo"):
        c = vs[-1].const()
        if c is not None:
            return K(1 if c and c & (c - 1) == 0 else 0)
    return None


def settings(cx, A, hdr, size, halign=1):
    """-> [(ok, {getter: value}, path)] for create(size, A, hdr, halign)"""
    f = cx.fn("create")
    fm = fieldmap(cx)
    it = Interp(f, {0: S(Sym("ret", 8, 1 << 62, 8)), 1: S(size), 2: K(A), 3: hdr, 4: K(halign)}, lambda k: None, pow2)
    out = []
    for p, v, r in it.run():
        tag = None
        vals = {}
        for e in p.events:
            if e[0] != "store":
                continue
            if e[1].endswith("m_type_index"):
                tag = e[3].const()
            m = re.search(r"m_storage(?:\.data)?(?:\+(\d+))?$", e[1])
            if m:
                vals[int(m.group(1) or 0)] = e[3]
        out.append((tag == 0, {n: vals.get(off) for n, (fl, off) in fm.items()} if tag == 0 else {}, p))
    return out


@P.rule("R1", "for every accepted setting the header, user header, back-offset and payload lie disjoint and aligned inside the required size", min=32)
def layout(cx):
    f = cx.fn("ctor")
    fm = fieldmap(cx)
    hs = header_size(cx)
    if fm is None or hs is None:
        raise Broken("settings getters / userHeader() are not plain accessors any more")
    offname = None
    for g in cx.fns("userPayload"):
        for l in g.loads():
            offname = g.addr(l).split(".")[-1]
    for e in range(32):
        A = 1 << e
        bad = {}
        n = 0
        for r in [None] + list(range(8)):
            size = Sym("size", 0, M64 - 1)
            kk = Sym("k", 1 if r == 0 else 0, (1 << 29) - 1)
            hdr = K(0) if r is None else L({kk: 8}, r)
            oks = 0
            for ok, st, sp in settings(cx, A, hdr, size):
                if not ok:
                    continue
                oks += 1
                n += 1
                where = "alignment %d, user header %s" % (A, "none" if r is None else "8k+%d" % r)
                if any(v is None or isinstance(v, tuple) for v in st.values()):
                    bad.setdefault("settings", where)
                    continue
                if (st["userPayloadSize"] - S(size)).const() != 0 or (st["userHeaderSize"] - hdr).const() != 0 or st["userPayloadAlignment"].const() != A:
                    bad.setdefault("settings", where)
                req = st["requiredChunkSize"]
                if not provably_ge0(K(M64 - 1) - req, sp.cons):
                    bad.setdefault("overflow", where)
                addr = Sym("addr", 8, 1 << 62, 8)
                chunk = Sym("chunk", 0, M64 - 1)
                init = {"arg2." + fm[k][0]: v for k, v in st.items()}
                cons = list(sp.cons) + [S(chunk) - req]
                it = Interp(f, {0: S(addr), 1: S(chunk)}, lambda k: init.get(k), None, cons)
                outs = it.run()
                if it.panics:
                    bad.setdefault("panic", where)
                for p, v, ret in outs:
                    n += 1
                    stores = [x for x in p.events if x[0] == "store"]
                    off = p.mem.get("arg0." + offname)
                    if off is None:
                        bad.setdefault("offset", where)
                        continue
                    for note in p.notes:
                        if not provably_ge0(K(note[3]) - note[2], p.cons):
                            bad.setdefault("truncated", where)
                    pay = S(addr) + off
                    if (pay.res(A) if off.res(A) is None or A > 8 else (off.res(A))) != 0:
                        # the payload address itself must be a multiple of A
                        q = [x for x in stores if x[2] is not None and (x[2] - pay + K(4)).const() == 0]
                        if not (q and q[-1][2] is not None and (q[-1][2].res(A) or 0) == (A - 4) % A and q[-1][2].res(A) is not None):
                            bad.setdefault("alignment", where)
                    if not provably_ge0(off - K(hs) - hdr, p.cons):
                        bad.setdefault("overlap", where)
                    if not provably_ge0(req - off - S(size), p.cons):
                        bad.setdefault("fit", where)
                    back = None
                    for x in stores:
                        if x[2] is None:
                            bad.setdefault("wild", where)
                            continue
                        d = x[2] - (pay - K(4))
                        if d.const() == 0:
                            back = x
                        elif back is not None and not (d.lo() >= 4 or d.hi() <= -8):
                            back = None
                    if back is None or (back[3] - off).const() != 0:
                        bad.setdefault("backoffset", where)
                    elif not (back[1].endswith("." + offname) or provably_ge0(back[2] - S(addr) - K(hs if r is not None else hs - 4) - hdr, p.cons)):
                        bad.setdefault("backoffset-place", where)
                    if back is not None and back[2].res(4) != 0:
                        bad.setdefault("backoffset-align", where)
            if not oks:
                bad.setdefault("refused", "alignment %d" % A)
        for t, what in (("settings", "the settings hold what was asked for"), ("overflow", "the required size does not wrap around"),
                        ("panic", "a chunk of the required size is always sufficient"), ("offset", "the payload offset is set"),
                        ("truncated", "the payload offset fits into its type"), ("alignment", "the payload is aligned as requested"),
                        ("overlap", "the payload starts behind header and user header"), ("fit", "the payload ends inside the required size"),
                        ("wild", "nothing is written to an address the analysis cannot place"),
                        ("backoffset", "the word in front of the payload holds the distance to the chunk header"),
                        ("backoffset-place", "that word does not overlap the user header"), ("backoffset-align", "that word is aligned"), ("refused", "a valid alignment is accepted")):
            cx.ob(t not in bad, f, what + (" (%s)" % bad[t] if t in bad else ""), t)


@P.rule("R2", "alignment 0 means 1; alignments that are no power of two and misfitting user headers are refused", min=5)
def refuse(cx):
    f = cx.fn("create")
    size, hdr = Sym("size", 0, M64 - 1), L({Sym("k", 0, (1 << 28) - 1): 8}, 0)
    r = [st for ok, st, p in settings(cx, 0, hdr, size, 0) if ok]
    cx.ob(bool(r) and all(x["userPayloadAlignment"].const() == 1 and x["userHeaderAlignment"].const() == 1 for x in r), f, "alignment 0 is stored as 1", "zero")
    for a, h, name in ((3, 1, "payload"), (6, 1, "payload"), (24, 8, "payload"), (8, 3, "header"), (8, 6, "header")):
        rr = settings(cx, a, hdr, size, h)
        cx.ob(bool(rr) and not any(ok for ok, _, _ in rr), f, "%s alignment that is no power of two is refused" % name, "pow2-" + name)
    for h in (16, 64, 1 << 20, 1 << 31):
        rr = settings(cx, 8, hdr, size, h)
        cx.ob(bool(rr) and not any(ok for ok, _, _ in rr), f, "user-header alignment above the header's is refused", "hdr-align")
    for h, r0 in ((2, 1), (4, 2), (4, 3), (8, 4), (8, 6), (8, 1)):
        rr = settings(cx, 8, L({Sym("k", 0, (1 << 28) - 1): 8}, r0), size, h)
        cx.ob(bool(rr) and not any(ok for ok, _, _ in rr), f, "user-header size that is no multiple of its alignment is refused", "hdr-size")
    # the check is made on the value that is used
    oks = [i for i in f.stores("m_type_index") if v_const(0)(f.strip(i.ops[0]))]
    req_some(cx, f, oks, "settings are produced", "some")
    for o in oks:
        n = [c for c in f.calls(r"isPowerOfTwo$") if f.unguarded(o, holds(truth_of(v_is(c)))) is None]
        used = {i.id for i in f.ins()}
        cx.ob(len(n) >= 2, f, "both alignments are checked before settings are produced", "both", o)


@P.rule("R3", "isPowerOfTwo is true exactly for numbers with one bit", min=1)
def p2(cx):
    for f in cx.fns("pow2"):
        def single(k, pol):
            if k[0] != "eq" or not isnull(k[2]):
                return None
            v = k[1]
            if isinstance(v, Ins) and v.op == "and":
                a, b = f.affine(v.ops[0]), f.affine(v.ops[1])
                n, n1 = {("arg", 0): 1}, {("arg", 0): 1, 1: M64 - 1}
                n1b = {("arg", 0): 1, 1: (1 << 32) - 1}
                if (a == n and b in (n1, n1b)) or (b == n and a in (n1, n1b)):
                    return pol
            return None
        rows = bool_rows(f, {}, {"zero": lambda k, pol: pol if k[0] == "eq" and isnull(k[2]) and v_arg(0)(k[1]) else None, "single": single})

        def good(r):
            v = r.lit["ret"]
            if v == ("is", "single", True):
                return r.lit.get("zero") is False
            if v == ("is", "zero", False):
                return r.lit.get("single") is True
            if v is True:
                return r.lit.get("zero") is False and r.lit.get("single") is True
            return v is False and (r.lit.get("zero") is True or r.lit.get("single") is False)
        check_rows(cx, f, rows, good, "true exactly for n != 0 with n & (n-1) == 0", "pow2")


@P.rule("R4", "header, user header and payload are found from each other", min=8)
def access(cx):
    hs = header_size(cx)
    offname = None

    def outcomes(f):
        return [(r, f.ret_value(r.ret, r.st)) for r in table(f, {}, {"null": lambda k, pol: pol if k[0] == "eq" and isnull(k[2]) and v_arg(0)(k[1]) else None,
                                                                     "noid": lambda k, pol: pol if k[0] == "eq" and v_const(0)(k[2]) and v_path(r"m_userHeaderId$")(k[1]) else None})]
    for f in cx.fns("userPayload"):
        for r, v in outcomes(f):
            a = f.affine(v)
            l = [x for x in a if isinstance(x, tuple) and x[0] == "load"]
            offname = l[0][1].split(".")[-1] if l else None
            cx.ob(len(a) == 2 and a.get(("arg", 0)) == 1 and len(l) == 1 and a[l[0]] == 1, f, "payload = header + stored offset", "userPayload")
    for f in cx.fns("userHeader"):
        for r, v in outcomes(f):
            cx.ob(r.lit.get("noid") is not None and (isnull(v) if r.lit["noid"] else f.affine(v) == {("arg", 0): 1, 1: hs}), f, "user header follows the chunk header, null if there is none", "userHeader", r.ret, r.trail)
    for f in cx.fns("fromUserHeader"):
        for r, v in outcomes(f):
            cx.ob(r.lit.get("null") is not None and (isnull(v) if r.lit["null"] else f.affine(v) == {("arg", 0): 1, 1: (-hs) % M64}), f, "chunk header precedes the user header", "fromUserHeader", r.ret, r.trail)
    for f in cx.fns("fromUserPayload"):
        for r, v in outcomes(f):
            if r.lit.get("null") is None:
                cx.ob(False, f, "null is handled", "fromUserPayload-null", r.ret, r.trail)
            elif r.lit["null"]:
                cx.ob(isnull(v), f, "null stays null", "fromUserPayload-null", r.ret, r.trail)
            else:
                v = f.strip(v)
                good = isinstance(v, Ins) and v.op in ("sub", "getelementptr", "add")
                lds = [l for l in f.loads()]
                a = f.affine(v)
                good = good and len(lds) == 1 and f.affine(lds[0].ops[0]) == {("arg", 0): 1, 1: (-4) % M64} and a.get(("arg", 0)) == 1 and len(a) == 2 \
                    and [c for k, c in a.items() if k != ("arg", 0)] == [M64 - 1] and f.derives(v, v_is(lds[0]))
                cx.ob(good, f, "chunk header = payload - word in front of the payload", "fromUserPayload", r.ret, r.trail)
    f = cx.fn("usedSizeOfChunk")
    a = f.affine(f.rets()[0].ops[0])
    cx.ob(len(a) == 2 and all(c == 1 for c in a.values()) and any("m_userPayloadSize" in str(k) for k in a) and any(offname and offname in str(k) for k in a), f, "used size = payload offset + payload size", "used")


@P.rule("R5", "a header is only completed when the used size fits into the chunk", min=1)
def enforce(cx):
    f = cx.fn("ctor")

    def fits(k, pol):
        if k[0] != "ult":
            return False

        def used(v):
            a = f.affine(v)
            return any("m_userPayloadOffset" in str(x) for x in a) and any("m_userPayloadSize" in str(x) for x in a) and len(a) == 2
        return (used(k[2]) and v_arg(1)(k[1]) and not pol) or (used(k[1]) and v_arg(1)(k[2]) and pol)
    for r in f.rets():
        req_guard(cx, f, r, fits, "used size <= chunk size is enforced", "enforce")
    st = [i for i in f.stores("m_chunkSize")]
    cx.ob(bool(st) and all(v_arg(1)(f.strip(i.ops[0])) for i in st), f, "the chunk size is recorded", "chunkSize")
