#!/usr/bin/env python3
"""Development aid: applies one behaviour-preserving rewrite at every place of a scratch copy where it fits and runs all checks.
   refac.py KIND [PIDs…]     kinds: invert, hoist, else, while, lambda, demorgan, swap, ret, nop, tern"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ["iceoryx_hoofs", "iceoryx_posh", "iceoryx_platform", "iceoryx_binding_c"]
EXT = (".hpp", ".inl", ".cpp")


def mask(s):
    """comments, strings, preprocessor lines blanked out (same length)"""
    def rep(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'', rep, s, flags=re.S)
    return re.sub(r"^[ \t]*#(?:[^\n]*\\\n)*[^\n]*", rep, s, flags=re.M)


def close(m, i):
    o = m[i]
    c = {"(": ")", "{": "}", "[": "]"}[o]
    d = 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    return -1


def ws(m, i):
    while i < len(m) and m[i].isspace():
        i += 1
    return i


def ifs(m):
    """(start, cond open, cond close, then open, then close, else pos or None, else open, else close, preceded by else)"""
    for x in re.finditer(r"\bif\s*\(", m):
        a = x.end() - 1
        b = close(m, a)
        t = ws(m, b + 1)
        if b < 0 or t >= len(m) or m[t] != "{":
            continue
        te = close(m, t)
        e = ws(m, te + 1)
        el = re.match(r"else\b", m[e:e + 5])
        pre = re.search(r"else\s*$", m[max(0, x.start() - 40):x.start()]) is not None
        if re.search(r"constexpr\s*$", m[max(0, x.start() - 40):x.start()]):
            continue
        if el:
            eo = ws(m, e + 4)
            if m[eo] == "{":
                yield x.start(), a, b, t, te, e, eo, close(m, eo), pre
            else:
                yield x.start(), a, b, t, te, e, None, None, pre
        else:
            yield x.start(), a, b, t, te, None, None, None, pre


def decl(c):
    return ";" in c or re.match(r"\s*(const\s+)?[\w:<>,]+\s*[&*]*\s+\w+\s*=[^=]", c) is not None


def enclosing(m, i):
    """the closing brace of the block that contains i"""
    d = 0
    for k in range(i, len(m)):
        if m[k] == "{":
            d += 1
        elif m[k] == "}":
            if d == 0:
                return k
            d -= 1
    return -1


def infn(m, i):
    """no class scope … crude: indentation of at least 4 and the construct is a statement anyway"""
    return True


N = [0]


def sites(kind, s):
    """non-overlapping edits (pos, end, text), innermost first"""
    m = mask(s)
    if kind in ("invert", "hoist", "else", "demorgan", "lambda"):
        for st, a, b, t, te, e, eo, ee, pre in ifs(m):
            c = s[a + 1:b]
            cm = m[a + 1:b]
            if kind == "invert" and eo is not None and not decl(cm) and not pre:
                yield st, ee + 1, "if (!(%s)) %s else %s" % (c, s[eo:ee + 1], s[t:te + 1])
            elif kind == "hoist" and not pre and not decl(cm):
                N[0] += 1
                yield st, b + 1, "const bool verifC%d = static_cast<bool>(%s);\n if (verifC%d)" % (N[0], c, N[0])
            elif kind == "else" and e is None and not pre and re.search(r"\breturn\b[^;{}]*;\s*$", m[t + 1:te]):
                z = enclosing(m, te + 1)
                if z > 0 and m[te + 1:z].strip() and not re.search(r"^\s*(case|default)\b", m[te + 1:z], re.M):
                    # the enclosing block must end the function or the path: fine either way
                    yield te + 1, z, " else {" + s[te + 1:z] + "}\n"
            elif kind == "demorgan" and not decl(cm):
                p = split_top(cm)
                if p:
                    op, cuts = p
                    parts = []
                    o = 0
                    for q in cuts + [len(cm)]:
                        parts.append(c[o:q])
                        o = q + 2
                    parts = ["!(%s)" % x for x in parts]
                    yield a + 1, b, "!(" + (" || " if op == "&&" else " && ").join(parts) + ")"
            elif kind == "lambda" and not re.search(r"\b(return|break|continue|co_|goto)\b|IOX_RETURN", m[t:te]) and m[t + 1:te].strip():
                yield t, te + 1, "{ [&]() " + s[t:te + 1] + "(); }"
    elif kind == "while":
        for x in re.finditer(r"\bfor\s*\(", m):
            a = x.end() - 1
            b = close(m, a)
            semis = [k for k in range(a, b) if m[k] == ";" and depth(m, a + 1, k) == 0]
            t = ws(m, b + 1)
            if len(semis) != 2 or m[t] != "{":
                continue
            te = close(m, t)
            if re.search(r"\bcontinue\b", m[t:te]):
                continue
            i, c, n = s[a + 1:semis[0]], s[semis[0] + 1:semis[1]], s[semis[1] + 1:b]
            yield x.start(), te + 1, "{ %s; while (%s) { %s %s; } }" % (i, c.strip() or "true", s[t:te + 1], n.strip())
    elif kind == "swap":
        op = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
        atom = r"(?:[A-Za-z_][\w:]*(?:(?:\.|->)\w+)*(?:\(\))?)"
        for x in re.finditer(r"(?<=\()(%s) (==|!=|<=|>=|<|>) (%s)(?=\))" % (atom, atom), m):
            yield x.start(), x.end(), "%s %s %s" % (x.group(3), op[x.group(2)], x.group(1))
    elif kind == "ret":
        for x in re.finditer(r"\breturn\s+(?=[^;{\[]*;)([^;]*);", m):
            e = s[x.start(1):x.end(1)]
            if re.match(r"\s*(true|false|\w+)\s*$", e) and not e.strip().startswith("nullptr"):
                N[0] += 1
                if e.strip() in ("true", "false"):
                    yield x.start(), x.end(), "{ const bool verifR%d = %s; return verifR%d; }" % (N[0], e, N[0])
    elif kind == "nop":
        for x in re.finditer(r"\)\s*(const)?\s*(noexcept)?\s*\n\{\n", m):
            yield x.end(), x.end(), "    static_cast<void>(0);\n"
    elif kind == "swap2":
        op = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
        atom = r"(?:[A-Za-z_0-9][\w:]*(?:(?:\.|->)\w+)*(?:\([\w.]*\))?)"
        for x in re.finditer(r"(?<=[(&|!;=n(] )(%s) (==|!=|<=|>=|<|>) (%s)(?=\)| &&| \|\||;)" % (atom, atom), m):
            if x.group(1) in ("return", "operator", "template"):
                continue
            yield x.start(), x.end(), "(%s %s %s)" % (x.group(3), op[x.group(2)], x.group(1))
    elif kind in ("nest", "guard"):
        for st, a, b, t, te, e, eo, ee, pre in ifs(m):
            c, cm = s[a + 1:b], m[a + 1:b]
            if e is not None or pre or decl(cm):
                continue
            if kind == "nest":
                p = split_top(cm)
                if p and p[0] == "&&":
                    k = p[1][0]
                    yield st, te + 1, "if (%s) { if (%s) %s }" % (c[:k], c[k + 2:], s[t:te + 1])
            else:
                z = ws(m, te + 1)
                if m[z:z + 2] == "}\n" and m[z - 1] == "\n" and not re.search(r"\breturn\b", m[t:te]):
                    yield st, te + 1, "if (!(%s)) { return; }\n %s" % (c, s[t:te + 1])
    elif kind in ("iter", "index"):
        for x in re.finditer(r"\bfor\s*\(((?:const )?auto ?&?&?) ?(\w+) : ", m):
            a = m.index("(", x.start())
            b = close(m, a)
            t = ws(m, b + 1)
            if m[t] != "{":
                continue
            te = close(m, t)
            N[0] += 1
            n = N[0]
            if kind == "iter":
                yield x.start(), te + 1, "{ auto&& verifG%d = %s; for (auto verifI%d = std::begin(verifG%d); verifI%d != std::end(verifG%d); ++verifI%d) { %s %s = *verifI%d; %s } }" % (n, s[x.end():b], n, n, n, n, n, x.group(1), x.group(2), n, s[t:te + 1])
            else:
                yield x.start(), te + 1, "{ auto&& verifG%d = %s; for (uint64_t verifI%d = 0U; verifI%d < verifG%d.size(); ++verifI%d) { %s %s = verifG%d[verifI%d]; %s } }" % (n, s[x.end():b], n, n, n, n, x.group(1), x.group(2), n, n, s[t:te + 1])
    elif kind in ("dowhile", "brk"):
        for x in re.finditer(r"(?<!\} )\bwhile\s*\(", m):
            a = x.end() - 1
            b = close(m, a)
            t = ws(m, b + 1)
            if m[t] != "{":
                continue
            te = close(m, t)
            c = s[a + 1:b]
            if kind == "brk":
                yield x.start(), te + 1, "while (true) { if (!(%s)) { break; } %s }" % (c, s[t + 1:te])
            else:
                yield x.start(), te + 1, "if (%s) { do %s while (%s); }" % (c, s[t:te + 1], c)
    elif kind == "retvar":
        for x in re.finditer(r"^(?:inline )?((?:const )?(?:typename )?[\w:]+(?:<[^;{}()]*>)?)[ ]+((?:[\w]+(?:<[\w, .]*>)?::)*~?\w+)(\()", m, re.M):
            r = x.group(1).strip()
            if r in ("return", "constexpr", "else", "namespace", "class", "struct", "using", "template", "explicit", "friend", "delete", "new", "case", "inline", "void", "auto"):
                continue
            e = close(m, x.end() - 1)
            y = re.match(r"\s*(const)?\s*&?\s*(noexcept)?\s*\n?\{", m[e + 1:])
            if e < 0 or not y:
                continue
            o = e + 1 + y.end() - 1
            c = close(m, o)
            for z in re.finditer(r"\breturn\s+([^;{}]*);", m[o:c]):
                if "[" in m[o:o + z.start()] and re.search(r"\[[&=\w, ]*\]\s*(\(|\{)", m[o:o + z.start()]):
                    continue
                N[0] += 1
                yield o + z.start(), o + z.end(), "{ %s verifR%d = %s; return verifR%d; }" % (r, N[0], s[o + z.start(1):o + z.end(1)], N[0])
    elif kind == "bound":
        for x in re.finditer(r"\bfor\s*\(([^;()]*(?:\([^;()]*\))?[^;()]*);\s*(\w+) < ([^;]*);", m):
            a = m.index("(", x.start())
            b = close(m, a)
            t = ws(m, b + 1)
            if m[t] != "{":
                continue
            te = close(m, t)
            N[0] += 1
            yield x.start(), te + 1, "{ const auto verifN%d = %s; %s%s < verifN%d%s }" % (N[0], s[x.start(3):x.end(3)], s[x.start():x.start(2)], x.group(2), N[0], s[x.end(3):te + 1])
    elif kind == "switch":
        for x in re.finditer(r"\bswitch\s*\(", m):
            a = x.end() - 1
            b = close(m, a)
            t = ws(m, b + 1)
            te = close(m, t)
            labs = [y for y in re.finditer(r"\b(case\s+((?:[^:;{}]|::)+?)|default)\s*:(?!:)", m[t:te]) if depth(m, t + 1, t + y.start()) == 0]
            if not labs:
                continue
            groups, cur, ok = [], [], True
            for k, y in enumerate(labs):
                e = t + labs[k + 1].start() if k + 1 < len(labs) else te
                o = t + y.end()
                cur.append(y.group(2) or "default")
                bm = m[o:e].strip()
                if not bm:
                    continue
                body = s[o:e]
                z = re.search(r"\bbreak;\s*(\}?)\s*$", m[o:e])
                if z:
                    body = body[:z.start()] + z.group(1)
                    if re.search(r"\bbreak\b", m[o:o + z.start()]):
                        ok = False
                elif re.search(r"\bbreak\b", m[o:e]) or not (re.search(r"\breturn\b[^;]*;\s*\}?\s*$", m[o:e]) or k == len(labs) - 1):
                    ok = False
                groups.append((cur, body))
                cur = []
            if cur or not ok:
                continue
            N[0] += 1
            n = N[0]
            out = "{ const auto verifS%d = %s;\n" % (n, s[a + 1:b])
            g = [x2 for x2 in groups if "default" not in x2[0]]
            d = [x2 for x2 in groups if "default" in x2[0]]
            if not g:
                continue
            for k, (ls, body) in enumerate(g):
                out += "%sif (%s) { %s }\n" % ("else " if k else "", " || ".join("verifS%d == %s" % (n, l.strip()) for l in ls), body)
            for ls, body in d:
                out += "else { %s }\n" % body
            yield x.start(), te + 1, out + "}"
    elif kind == "wrap":
        for x in re.finditer(r"^(?:inline )?((?:const )?(?:typename )?[\w:]+(?:<[^;{}()]*>)?[ &*]+)((?:[\w]+(?:<[\w, .]*>)?::)*~?\w+)(\()", m, re.M):
            r = x.group(1).strip()
            if r in ("return", "constexpr", "else", "namespace", "class", "struct", "using", "template", "explicit", "friend", "delete", "new", "case", "inline"):
                continue
            e = close(m, x.end() - 1)
            y = re.match(r"\s*(const)?\s*&?\s*(noexcept)?\s*\n?\{", m[e + 1:])
            if e < 0 or not y:
                continue
            o = e + 1 + y.end() - 1
            c = close(m, o)
            if not m[o + 1:c].strip() or "constexpr" in m[x.start() - 30:x.start()]:
                continue
            yield o, c + 1, "{ return [&]() -> %s %s(); }" % (r, s[o:c + 1])
    elif kind == "tern":
        for x in re.finditer(r"\breturn ([^;?{}]*) \? ([^;:?]*(?:::[^;:?]*)*) : ([^;?]*);", m):
            if "(" not in m[x.start() - 2:x.start()]:
                yield x.start(), x.end(), "{ if (%s) { return %s; } return %s; }" % (s[x.start(1):x.end(1)], s[x.start(2):x.end(2)], s[x.start(3):x.end(3)])
    elif kind == "bind":
        # x.and_then / temporaries are left alone; calls with results assigned are bound through a reference
        for x in re.finditer(r"^( +)(auto) (\w+) = ([^;{}\[]*);", m, re.M):
            yield x.start(), x.end(), s[x.start():x.end()] + "\n static_cast<void>(%s);" % x.group(3)


def depth(m, a, k):
    d = 0
    for q in range(a, k):
        d += (m[q] in "([{") - (m[q] in ")]}")
    return d


def split_top(c):
    for op in ("||", "&&"):
        cuts = [k for k in range(len(c) - 1) if c[k:k + 2] == op and depth(c, 0, k) == 0]
        if cuts:
            if op == "&&" or not any(c[k:k + 2] == "&&" and depth(c, 0, k) == 0 for k in range(len(c) - 1)):
                return op, cuts
            return op, cuts
    return None


def apply(kind, s, banned, fn):
    """repeatedly applies innermost-first until no new site; banned: line numbers of the original text"""
    out = []
    for a, b, t in sites(kind, s):
        ln = s.count("\n", 0, a) + 1
        if (fn, ln) in banned:
            continue
        out.append((a, b, t, ln))
    # innermost first: drop sites that contain another one (unless zero width)
    out.sort(key=lambda x: (x[1] - x[0], x[0]))
    keep = []
    for a, b, t, ln in out:
        if all(b <= x[0] or a >= x[1] for x in keep):
            keep.append((a, b, t, ln))
    keep.sort(reverse=True)
    lm = []
    for a, b, t, ln in keep:
        t = re.sub(r"\n", "\n", t)
        s = s[:a] + t + s[b:]
        lm.append(ln)
    return s, sorted(lm)


def main():
    kind = sys.argv[1]
    pids = sys.argv[2:] or ["P%02d" % k for k in range(1, 60) if os.path.exists("%s/rules/p%02d.py" % (H, k))]
    D = "/tmp/rf/" + kind
    ban = "/tmp/rf/%s.ban" % kind
    os.makedirs(D, exist_ok=True)
    banned = set()
    if os.path.exists(ban):
        for l in open(ban):
            f, n = l.rsplit(":", 1)
            banned.add((f, int(n)))
    for rnd in range(60):
        shutil.rmtree(D + "/repo", ignore_errors=True)
        shutil.copytree(os.environ.get("MUT_SRC", "/repo"), D + "/repo", symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
        lines = {}
        N[0] = 0
        for base in DIRS:
            for dp, dn, fs in os.walk(D + "/repo/" + base):
                if "/test" in dp or "/platform/" in dp and "/linux" not in dp or "mocks" in dp:
                    continue
                for f in fs:
                    if f.endswith(EXT):
                        p = os.path.join(dp, f)
                        s = open(p).read()
                        rel = os.path.relpath(p, D + "/repo")
                        n, lm = apply(kind, s, banned, rel)
                        if lm:
                            lines[rel] = lm
                            # keep a map from new to old lines through #line-free markers: count by difflib
                            open(p, "w").write(n)
        env = dict(os.environ, VERIF_REPO=D + "/repo", VERIF_BUILD=D + "/b", VERIF_EVIDENCE=D + "/ev")
        os.environ.update(env)
        sys.path.insert(0, H)
        sys.setrecursionlimit(10000)
        from engine import build
        import importlib
        units = sorted({u for pid in pids for g in importlib.import_module("rules." + pid.lower()).P.groups.values() for u in g.units})
        inc, _ = build.includes()

        def comp(u):
            path = u if os.path.isabs(u) else D + "/repo/" + u
            return subprocess.run([build.CLANG, "-std=c++17", "-fsyntax-only", "-w", "-fexceptions", "-fno-access-control", "-ferror-limit=200", "-DNDEBUG"] + inc + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        new = set()
        with cf.ThreadPoolExecutor(8) as ex:
            for o in ex.map(comp, units):
                for x in re.finditer(r"^(\S+?):(\d+):\d+: (?:fatal )?error:", o, re.M):
                    f = os.path.relpath(x.group(1), D + "/repo")
                    if f in lines:
                        new.add((f, int(x.group(2))))
                    else:
                        print("?", x.group(0), o[:300])
        if new:
            import difflib
            add = set()
            for f, ln in new:
                a = open(os.environ.get("MUT_SRC", "/repo") + "/" + f).read().split("\n")
                b = open(D + "/repo/" + f).read().split("\n")
                old = ln
                for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
                    if j1 <= ln - 1 < max(j2, j1 + 1):
                        old = i1 + 1 + (ln - 1 - j1 if tag == "equal" else 0)
                        break
                c = [(abs(l - old), l) for l in lines[f]]
                add.add((f, min(c)[1]))
                for l in lines[f]:
                    if abs(l - old) <= 1:
                        add.add((f, l))
            print("round %d: %d sites dropped" % (rnd, len(add)), sorted(add)[:3], flush=True)
            banned |= add
            open(ban, "w").write("".join("%s:%d\n" % x for x in sorted(banned)))
            continue

        def one(pid):
            try:
                r = subprocess.run([sys.executable, H + "/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return pid, 9, "timeout"
            return pid, r.returncode, r.stdout
        with cf.ThreadPoolExecutor(3) as ex:
            res = list(ex.map(one, pids))
        print("%s: %d sites in %d files" % (kind, sum(map(len, lines.values())), len(lines)))
        for pid, rc, o in res:
            print("%s %s" % (pid, rc))
            if rc:
                print("    " + "\n    ".join(l[:230] for l in o.splitlines() if l.strip())[:3000])
        break


if __name__ == "__main__":
    main()
