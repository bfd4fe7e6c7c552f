"""where exceptions end up: per call site of a unit compiled with its handlers, caught / passed on / terminating"""
import re
import subprocess

from .build import Broken, compile_unit


class Unit:
    def __init__(self, src):
        bc = compile_unit(src, "unwind")
        r = subprocess.run(["/usr/bin/llvm-dis-18", bc, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("llvm-dis: " + r.stderr[-300:])
        t = r.stdout
        self.groups = {m.group(1) for m in re.finditer(r"^attributes #(\d+) = \{[^}]*\bnounwind\b", t, re.M)}
        loc = {m.group(1): (m.group(2), m.group(3)) for m in re.finditer(r"^!(\d+) = (?:distinct )?!DILocation\(line: (\d+),.*?scope: !(\d+)", t, re.M)}
        self.line = {k: v[0] for k, v in loc.items()}
        self.fns, self.decl_nounwind = {}, set()
        for m in re.finditer(r"^(define|declare)[^\n]*?@(\"[^\"]*\"|[\w.$]+)\(([^\n]*)$", t, re.M):
            tail = m.group(3)
            if any(g in self.groups for g in re.findall(r"#(\d+)", tail)):
                self.decl_nounwind.add(m.group(2))
            if m.group(1) == "define":
                self.fns[m.group(2)] = t[m.end():t.index("\n}\n", m.end())]
        names = sorted(set(self.fns) | set(re.findall(r"@([\w.$]+)", t)))
        d = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        self.name = dict(zip(names, d))
        self.sites = {f: list(self._sites(b)) for f, b in self.fns.items()}

    def _sites(self, body):
        blocks = {}
        cur, l = "entry", []
        for line in body.split("\n"):
            m = re.match(r"^([\w.$-]+|\"[^\"]*\"):", line)
            if m:
                blocks[cur] = l
                cur, l = m.group(1), []
            else:
                l.append(line)
        blocks[cur] = l
        for b in blocks.values():
            for n, line in enumerate(b):
                m = re.search(r"\b(call|invoke)\b.*?@([\w.$]+)\(", line)
                if not m:
                    continue
                rest = line + (b[n + 1] if m.group(1) == "invoke" and n + 1 < len(b) else "")
                quiet = any(g in self.groups for g in re.findall(r"#(\d+)", line)) or m.group(2) in self.decl_nounwind
                at = re.search(r"!dbg !(\d+)", rest)
                u = re.search(r"unwind label %([\w.$-]+)", rest)
                yield dict(callee=m.group(2), quiet=quiet, line=self.line.get(at.group(1)) if at else None, caught=self._caught(blocks, u.group(1)) if u else False)

    def _caught(self, blocks, pad):
        """an exception derived from std::exception is handled there"""
        t = "\n".join(blocks.get(pad, []))
        if re.search(r"catch ptr @_ZTISt9exception\b", t):
            return True
        if not re.search(r"catch ptr null", t):
            return False
        todo, seen = [pad], set()
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            t = "\n".join(blocks.get(b, []))
            if "__clang_call_terminate" in t:
                return False
            if "__cxa_begin_catch" in t:
                return True
            todo += re.findall(r"label %([\w.$-]+)", t)
        return False

    def escapes(self, own):
        """functions (not those of std) an exception thrown in namespace `own` leaves through"""
        out = set()
        todo = True
        while todo:
            todo = False
            for f, l in self.sites.items():
                if f in out or f in self.decl_nounwind or re.match(r"(void |[\w:<>,* &]+ )?(std|__gnu_cxx)::", self.name[f]) and own not in self.name[f]:
                    continue
                for s in l:
                    if s["callee"] == "__cxa_throw" and own in self.name[f] or s["callee"] in out and not s["quiet"]:
                        if not s["caught"]:
                            out.add(f)
                            todo = True
                            break
        return out
