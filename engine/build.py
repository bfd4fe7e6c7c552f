"""Builds what a check needs from /repo's current working tree, outside /repo:
the irx extractor, a configure step (generated headers, include paths), bitcode of the needed units."""
import concurrent.futures as cf
import hashlib
import json
import collections
import os
import threading
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CLANG = "/usr/bin/clang++-18"


class Broken(Exception):
    """The analysis itself could not be carried out (error exit, never a verdict)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tool():
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(VERIF, "tool", "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(OUT, "irx-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                 "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise Broken("irx does not build:\n" + r.stdout[-3000:])
        os.replace(tmp, exe)
    return exe


_inc = None


def includes():
    """Configure /repo into OUT/cfg (generated headers) and return the include switches of the real build."""
    global _inc
    if _inc is not None:
        return _inc
    cfg = os.path.join(OUT, "cfg-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    env = dict(os.environ, GIT_DIR="/nonexistent")
    r = run(["cmake", "-S", REPO + "/iceoryx_meta", "-B", cfg, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
             "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
             "-DBUILD_ALL=OFF", "-DBINDING_C=ON", "-DINTROSPECTION=OFF", "-DBUILD_STRICT=OFF", "-DCCACHE=OFF",
             "-DDOWNLOAD_TOML_LIB=OFF", "-DTOML_CONFIG=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    cc = os.path.join(cfg, "compile_commands.json")
    if r.returncode or not os.path.exists(cc):
        # without the toml library the config-file units are not analysed; everything else is
        r = run(["cmake", "-S", REPO + "/iceoryx_meta", "-B", cfg, "-DTOML_CONFIG=OFF"], env=env)
        if r.returncode or not os.path.exists(cc):
            raise Broken("configure failed:\n" + r.stdout[-3000:])
    db = json.load(open(cc))
    inc, files = [], []
    for e in db:
        files.append(os.path.relpath(e["file"], REPO))
        for t in re.findall(r"-(?:I|isystem )\S+", e["command"]):
            t = t.replace("-isystem ", "-I")
            if t not in inc:
                inc.append(t)
    _inc = (inc, files)
    return _inc


def _sha(p):
    try:
        return hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        return "missing"


def _depcheck(meta):
    try:
        m = json.load(open(meta))
    except (OSError, ValueError):
        return False
    return all(_sha(p) == h for p, h in m.items())


_locks = collections.defaultdict(threading.Lock)
_done = {}


def compile_unit(src, flavour):
    with _locks[(src, flavour)]:
        if (src, flavour) not in _done:
            _done[(src, flavour)] = _compile_unit(src, flavour)
        return _done[(src, flavour)]


def _compile_unit(src, flavour):
    """src: path relative to /repo, or absolute (a driver of ours that only instantiates /repo templates)."""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if not os.path.exists(path):
        raise Broken("unit vanished: " + src)
    inc, _ = includes()
    flags = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-exceptions",
             "-fno-discard-value-names", "-w", "-fno-access-control"]
    if "toml" in os.path.basename(path):  # handlers around the TOML library are left out
        flags[flags.index("-fno-exceptions")] = "-fexceptions" if flavour == "unwind" else "-fignore-exceptions"
    if path == os.path.join(VERIF, "drivers", "enums.cpp"):
        flags[flags.index("-gline-tables-only")] = "-g"
    flags += ["-DNDEBUG"] if flavour != "debug" else []
    key = hashlib.sha256(" ".join([path] + flags + inc).encode()).hexdigest()[:20]
    out = os.path.join(OUT, "bc", key + ".bc")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    meta = out + ".json"
    if os.path.exists(out) and _depcheck(meta):
        return out
    tmp = "%s.%d.%d" % (out, os.getpid(), threading.get_ident())
    dep = tmp + ".d"
    r = run([CLANG] + flags + inc + ["-emit-llvm", "-c", path, "-o", tmp, "-MD", "-MF", dep])
    if r.returncode:
        raise Broken("unit does not compile: %s\n%s" % (src, r.stdout[-3000:]))
    txt = open(dep).read().split(":", 1)[1].replace("\\\n", " ")
    deps = [d for d in txt.split() if not d.startswith(("/usr/", "/lib/"))]
    with open(tmp + ".json", "w") as fp:
        json.dump({d: _sha(d) for d in deps}, fp)
    if os.path.exists(meta):
        os.remove(meta)
    os.replace(tmp, out)
    os.replace(tmp + ".json", meta)
    os.remove(dep)
    return out


def compile_all(srcs, flavour="release"):
    includes()
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        uniq = list(dict.fromkeys(srcs))
        got = dict(zip(uniq, ex.map(lambda s: compile_unit(s, flavour), uniq)))
    return [got[s] for s in srcs]


def extract(spec, bcs):
    exe = tool()
    h = hashlib.sha256((json.dumps(spec, sort_keys=True) + exe + " ".join(bcs) + " ".join(_sha(b) for b in bcs)).encode()).hexdigest()[:20]
    d = os.path.join(OUT, "irx")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, h + ".json")
    if not os.path.exists(out):
        tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        sp = tmp + ".spec"
        with open(sp, "w") as fp:
            json.dump(spec, fp)
        r = run([exe, sp, tmp] + bcs)
        if r.returncode:
            raise Broken("irx failed (%d):\n%s" % (r.returncode, r.stdout[-3000:]))
        os.replace(tmp, out)
        os.remove(sp)
    return json.load(open(out))
