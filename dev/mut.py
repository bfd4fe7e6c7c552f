#!/usr/bin/env python3
"""Development aid: runs the checks on scratch copies of /repo with one small edit each.
   mut.py [property ids | names]    expectations: 'bad' edits must be reported, 'ok' edits (refactorings) must stay quiet."""
import concurrent.futures as cf
import os
import queue
import shutil
import subprocess
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from muts import M
import seeds
M += [(s["prop"], s["id"], "bad", s["edits"]) for s in seeds.S]
W = "/tmp/mw"
SRC = os.environ.get("MUT_SRC", "/repo")
N = int(os.environ.get("MUT_N", "6"))
pool = queue.Queue()


def worker_dir(k):
    d = "%s/%d" % (W, k)
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", SRC + "/", d + "/repo/"], check=True) if shutil.which("rsync") else \
        (shutil.rmtree(d + "/repo", ignore_errors=True), shutil.copytree(SRC, d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("_build", ".git")))
    return d


def one(m):
    pid, name, expect, edits = m
    d = pool.get()
    saved = {}
    try:
        for fn, old, new in edits:
            p = os.path.join(d, "repo", fn)
            s = open(p).read()
            saved.setdefault(p, s)
            if old not in s:
                return m, "EDIT-FAILED %s: %r" % (fn, old[:60]), ""
            open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/b", VERIF_EVIDENCE=d + "/ev")
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(H), "check.py"), pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return m, {0: "quiet", 1: "caught"}.get(r.returncode, "BROKEN"), r.stdout
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)
        pool.put(d)


def main():
    sel = [m for m in M if len(sys.argv) < 2 or m[0] in sys.argv[1:] or m[1] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(N) as ex:
        for d in ex.map(worker_dir, range(N)):
            pool.put(d)
        bad = 0
        for m, res, out in ex.map(one, sel):
            want = "caught" if m[2] == "bad" else "quiet"
            good = res == want
            bad += not good
            keys = [l.strip().split("]")[0][1:] for l in out.splitlines() if l.startswith("  [")]
            print("%s %-4s %-28s %s %s" % ("ok  " if good else "FAIL", m[0], m[1], res, ",".join(keys)[:110]))
            if not good:
                print("      " + "\n      ".join(out.splitlines()[-12:]))
    print("%d mutants, %d unexpected" % (len(sel), bad))


main()
