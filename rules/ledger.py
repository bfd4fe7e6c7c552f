"""Ownership ledger: symbolic owner slots vs. reference counter updates, along every path of one flow graph."""
import re

from engine.ir import Ins, Val

NULLS = (0xFFFFFFFFFFFFFFFF,)


def _slot(f, addr):
    """owner slot (argument number) an address denotes, or None"""
    r = f.root_of(addr)
    if isinstance(r, Val) and r.k == "arg":
        p = f.path(addr)
        if "->" in p or "*" in p:
            return None
        return r.v
    return None


def ledger(f, before, after, ret_owner, own_arg, counter="m_referenceCounter", free=r"freeChunk$"):
    bad = []
    init = {}
    for a in before:
        init[("slot", a)] = "S%d" % a
    if own_arg is not None:
        init[("arg", own_arg)] = "A"

    def sym(st, v):
        """symbol held by a pointer value: 'S0', 'A', 'N' (null) or None (not an owner value)"""
        v = f.strip(v)
        if isinstance(v, Val):
            if v.k == "null" or (v.k == "c" and v.v in NULLS):
                return "N"
            if v.k == "arg" and ("arg", v.v) in st:
                return st[("arg", v.v)]
            return None
        if ("v", v.id) in st:
            return st[("v", v.id)]
        if v.op == "phi":
            x = st.get(("phi", v.id))
            return sym(st, x) if x is not None else None
        found = set()

        def p(x):
            if isinstance(x, Ins) and ("v", x.id) in st and st[("v", x.id)] != "N":
                found.add(st[("v", x.id)])
            if isinstance(x, Val) and x.k == "arg" and ("arg", x.v) in st:
                found.add(st[("arg", x.v)])
            return False
        f.derives(v, p, through_calls=True)
        if len(found) == 1:
            return found.pop()
        return None

    def isnull(st, s):
        return s == "N" or st.get(("null", s)) is True

    def report(st, tag, what, i):
        st["bad"] = (tag, what, i)
        return False

    res_bad = []

    def step(st, i):
        if i.op == "load":
            a = _slot(f, i.ops[0])
            if a is not None and ("slot", a) in st:
                st[("v", i.id)] = st[("slot", a)]
        elif i.op == "store":
            a = _slot(f, i.ops[1])
            if a is not None:
                s = sym(st, i.ops[0])
                if s is None:
                    if a in after or a in before:
                        res_bad.append(("unknown-owner", "an owner slot is overwritten with a pointer that is no owned chunk", i, None))
                        return False
                else:
                    st[("slot", a)] = s
        elif i.op == "call" and i.callee and i.callee.startswith(("llvm.memcpy", "llvm.memmove")) and _slot(f, i.ops[0]) is not None:
            st[("slot", _slot(f, i.ops[0]))] = sym(st, i.ops[1]) or "?"
        elif i.op == "call" and i.callee and i.callee.startswith("llvm.memset"):
            a = _slot(f, i.ops[0])
            if a is not None:
                st[("slot", a)] = "N"
        elif i.op == "call" and i.callee == "iox::RelativePointerData::RelativePointerData" and _slot(f, i.ops[0]) is not None:
            ss = {sym(st, o) for o in i.ops[1:]} - {None}
            st[("slot", _slot(f, i.ops[0]))] = ss.pop() if len(ss) == 1 else "?"
        elif i.op == "atomicrmw" and counter in f.addr(i):
            p = f.ptr(i)
            b = f.strip(p)
            while isinstance(b, Ins) and b.op in ("field", "getelementptr"):
                b = f.strip(b.ops[0])
            s = sym(st, b)
            n = i.ops[1]
            if s is None or not isinstance(n, Val) or n.k != "c" or i.rmw not in ("add", "sub"):
                res_bad.append(("counter", "reference counter updated for a chunk that is not in an owner slot", i, None))
                return False
            d = n.v if i.rmw == "add" else -n.v
            if n.v > (1 << 63):
                d = -d
            if st.get(("zero", s)):
                res_bad.append(("after-free", "reference counter of an already freed chunk is touched", i, None))
                return False
            st[("d", s)] = st.get(("d", s), 0) + d
            if d < 0:
                st[("last", s)] = i.id
        elif i.op == "call" and i.callee and re.search(free, i.callee):
            s = sym(st, i.ops[0])
            if s is None:
                res_bad.append(("free-unknown", "a chunk is freed that is in no owner slot", i, None))
                return False
            if not st.get(("was1", s)):
                res_bad.append(("free-early", "a chunk is freed on a path where its reference count is not known to have dropped to zero", i, None))
                return False
            if st.get(("zero", s)):
                res_bad.append(("double-free", "a chunk is freed twice on one path", i, None))
                return False
            st[("zero", s)] = True
        return None

    def edge(st, k, pol):
        if k[0] in ("ult", "slt"):
            a, b = k[1], k[2]
            if isinstance(a, Val) and a.k == "c" and a.v == 1 and isinstance(b, Ins) and b.op == "atomicrmw":
                k, pol = ("eq", b, Val("c", 1)), not pol  # previous count > 1
            elif isinstance(b, Val) and b.k == "c" and b.v == 2 and isinstance(a, Ins) and a.op == "atomicrmw":
                k = ("eq", a, Val("c", 1))  # previous count < 2
        if k[0] != "eq":
            return None
        a, b = k[1], k[2]
        if isinstance(b, Val) and (b.k == "null" or (b.k == "c" and b.v in NULLS)):
            s = sym(st, a)
            if s == "N":
                return False if not pol else None
            if s:
                if st.get(("null", s)) is (not pol):
                    return False
                st[("null", s)] = pol
        elif isinstance(a, Ins) and a.op == "atomicrmw" and isinstance(b, Val) and b.k == "c" and b.v == 1:
            for kk, vv in list(st.items()):
                if kk[0] == "last" and vv == a.id:
                    st[("was1", kk[1])] = pol
        elif isinstance(a, Val) and isinstance(b, Val) and a.k == "arg" and b.k == "arg" and pol:
            # the two objects are the same: both slots denote one owner
            st["same"] = True
            return None
        elif isinstance(a, Ins) and isinstance(b, Ins):
            s1, s2 = sym(st, a), sym(st, b)
            if s1 and s2 and s1 != s2 and pol:
                st["alias"] = True
        return None

    rets = f.simulate(init, step, edge)
    for (tag, what, i, w) in res_bad:
        bad.append((tag, what, i, w))
    for r, st, tr in rets:
        if st.get("same"):
            # self assignment: nothing may have happened
            if any(k[0] == "d" and v != 0 for k, v in st.items() if isinstance(k, tuple)):
                bad.append(("self", "self assignment changes the reference counter", r, tr))
            for a in before:
                if a in after and st.get(("slot", a)) == "N":
                    bad.append(("self", "self assignment drops the chunk without giving up its reference", r, tr))
            continue
        syms = ["S%d" % a for a in before] + (["A"] if own_arg is not None else [])
        for s in syms:
            if isnull(st, s):
                if st.get(("d", s), 0):
                    bad.append(("null", "reference counter of a null chunk is touched", r, tr))
                continue
            n0 = 1
            n1 = sum(1 for a in after if st.get(("slot", a)) == s)
            if ret_owner and r.ops and sym(st, r.ops[0]) == s:
                n1 += 1
            d = st.get(("d", s), 0)
            if st.get("alias"):
                continue
            if d != n1 - n0:
                kind = "leak" if d > n1 - n0 else "premature"
                bad.append((kind, "owner of the chunk changes by %+d on this path but its reference counter by %+d (%s)"
                            % (n1 - n0, d, "the chunk would never be freed" if kind == "leak" else "the chunk would be freed while still owned"), r, tr))
            if d < 0 and ("last", s) in st and st.get(("was1", s)) is True and not st.get(("zero", s)):
                bad.append(("nofree", "the last reference is given up but the chunk is not freed", r, tr))
            if d < 0 and ("last", s) in st and st.get(("was1", s)) is None:
                bad.append(("nofree", "a reference is given up without testing whether it was the last one", r, tr))
    return bad
