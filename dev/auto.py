#!/usr/bin/env python3
"""Development aid: systematic one-token mutants of the lines a property's flow graphs come from; prints the survivors for triage.
   auto.py N PID…      (N mutants per property, fixed random choice)"""
import concurrent.futures as cf, importlib, os, random, re, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.dirname(H)]
sys.setrecursionlimit(10000)
import refac
from engine import core
import queue, shutil
W, NW = "/tmp/mw", 7


def worker_dir(k):
    d = "%s/%d" % (W, k)
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(d + "/repo", ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
    return d


def lines_of(pid):
    m = importlib.import_module("rules." + pid.lower())
    data, _, _ = core.run_groups(m.P, "release")
    out = {}
    for fs in data.values():
        for f in fs:
            for i in f.ins():
                for l in [i.loc] if i.loc else []:
                    p = l[0] if l[0].startswith("/") else "/repo/" + l[0]
                    if p.startswith("/repo/") and os.path.exists(p):
                        out.setdefault(p[6:], set()).add(l[1])
    return out


SWAP = [("==", ["!="]), ("!=", ["=="]), ("<=", ["<"]), (">=", [">"]), ("<", ["<="]), (">", [">="])]


def mutants(fn, lines):
    s = open("/repo/" + fn).read()
    m = refac.mask(s)
    # log statements and assertions' texts are of no interest
    for x in re.finditer(r"\bIOX_LOG\s*\(", m):
        e = refac.close(m, x.end() - 1)
        m = m[:x.start()] + re.sub(r"[^\n]", " ", m[x.start():e + 1]) + m[e + 1:]
    pos = 0
    starts = [0] + [k + 1 for k, c in enumerate(s) if c == "\n"]
    for ln in sorted(lines):
        if ln > len(starts):
            continue
        a = starts[ln - 1]
        b = s.find("\n", a)
        t = m[a:b]
        if re.match(r"\s*(template|static_assert|#|using |case )", t):
            continue
        for op, alts in SWAP:
            for x in re.finditer(r"(?<=[\w)\]] )%s(?= [\w(!&*:~])" % re.escape(op), t):
                if "template" in t or "static_cast<" in t[:x.start()] and ">" == op and "(" not in t[x.start():]:
                    continue
                for n in alts:
                    yield ln, a + x.start(), a + x.end(), n
        for op, n in (("&&", "||"), ("||", "&&")):
            for x in re.finditer(r"(?<= )%s(?= )" % re.escape(op), t):
                yield ln, a + x.start(), a + x.end(), n
        for x in re.finditer(r"memory_order_(acquire|release|acq_rel|seq_cst)", t):
            yield ln, a + x.start(), a + x.end(), "memory_order_relaxed"
        for x in re.finditer(r"\b(true|false)\b", t):
            yield ln, a + x.start(), a + x.end(), "false" if x.group(1) == "true" else "true"
        for x in re.finditer(r"([+-]) 1U?\b", t):
            yield ln, a + x.start(), a + x.end(), x.group(1) + " 0U"
        for x in re.finditer(r"(?<![\w.])(0U?|1U?)(?![\w.])", t):
            yield ln, a + x.start(), a + x.end(), "1U" if x.group(1)[0] == "0" else "2U"
        for x in re.finditer(r"(?<![!\w])!(?=[\w(])", t):
            yield ln, a + x.start(), a + x.end(), ""
        for x in re.finditer(r"\bif \((?!constexpr)", t):
            e = refac.close(m, a + x.end() - 1)
            c = s[a + x.end():e]
            if ";" not in c and not re.match(r"\s*auto", c):
                yield ln, a + x.end(), e, "!(" + c + ")"
                yield ln, a + x.end(), e, "(" + c + ") || true"
                yield ln, a + x.end(), e, "(" + c + ") && false"
        # statement deletion
        if re.match(r"\s*[\w:*(].*;\s*$", t) and not re.match(r"\s*(return|const |auto |[\w:<>]+[&*]? \w+[ ({;=]|else|for|while|using|throw|delete)", t) and re.search(r"[;{}:]\s*$", m[:a].rstrip(" \n\t") or ";"):
            yield ln, a, b, ";"
        x = re.match(r"\s*(break|continue);\s*$", t)
        if x:
            yield ln, a, b, ";"
        # arguments swapped
        for x in re.finditer(r"\((\w+), (\w+)\)", t):
            if x.group(1) != x.group(2):
                yield ln, a + x.start(), a + x.end(), "(%s, %s)" % (x.group(2), x.group(1))


def main():
    n, pids = int(sys.argv[1]), sys.argv[2:]
    pool = queue.Queue()
    with cf.ThreadPoolExecutor(NW) as ex:
        for d in ex.map(worker_dir, range(NW)):
            pool.put(d)
        jobs = []
        for pid in pids:
            ms = []
            for fn, ls in lines_of(pid).items():
                if fn.startswith("iceoryx_platform"):
                    continue
                ms += [(pid, fn) + x for x in mutants(fn, ls)]
            random.Random(7).shuffle(ms)
            tot = len(ms)
            jobs += ms[:n]
            print("#", pid, tot, "mutants", flush=True)

        def one(j):
            pid, fn, ln, a, b, new = j
            d = pool.get()
            p = d + "/repo/" + fn
            s = open(p).read()
            try:
                open(p, "w").write(s[:a] + new + s[b:])
                env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/b", VERIF_EVIDENCE=d + "/ev")
                try:
                    r = subprocess.run([sys.executable, os.path.dirname(H) + "/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 99, "timeout"
                return j, rc, o, s[s.rfind("\n", 0, a) + 1:s.find("\n", b)]
            finally:
                open(p, "w").write(s)
                pool.put(d)
        st = {}
        for j, rc, o, t in ex.map(one, jobs):
            pid, fn, ln, a, b, new = j
            k = {0: "SURVIVED", 1: "caught"}.get(rc, "broken")
            if k == "broken" and "does not compile" in o:
                k = "nocompile"
            st[(pid, k)] = st.get((pid, k), 0) + 1
            if k in ("SURVIVED", "broken"):
                print("%s %s %s:%d  [%s]  %s%s" % (pid, k, fn, ln, new[-40:], " ".join(t.split())[:130], "" if k == "SURVIVED" else "  || " + o.strip().splitlines()[-1][:120]), flush=True)
        for pid in pids:
            print("##", pid, {k[1]: v for k, v in st.items() if k[0] == pid})


main()
