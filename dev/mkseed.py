#!/usr/bin/env python3
"""dev/mkseed.py [ids]: writes seeded/<id>/ from dev/seeds.py (patch against /repo's HEAD)"""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "dev"))
exec(open("/tmp/mkdemo.py").read()) if False else None
COMMON = open(os.path.join(H, "dev", "demo_common.sh")).read()
import seeds
for s in seeds.S:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    d = os.path.join(H, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = ""
    byfile = {}
    for f, o, n in s["edits"]:
        t = byfile.get(f) or open("/repo/" + f).read()
        if t.count(o) != 1:
            sys.exit("%s: %d matches in %s of %r" % (s["id"], t.count(o), f, o))
        byfile[f] = t.replace(o, n)
    for f, t in byfile.items():
        tmp = tempfile.NamedTemporaryFile("w", delete=False)
        tmp.write(t); tmp.close()
        r = subprocess.run(["git", "diff", "--no-index", "/repo/" + f, tmp.name], stdout=subprocess.PIPE, text=True).stdout
        r = r.replace("a/repo/" + f, "a/" + f).replace("b" + tmp.name, "b/" + f).replace("a/" + "/repo/" + f, "a/" + f)
        r = "\n".join(l for l in r.split("\n") if not l.startswith("old mode") and not l.startswith("new mode"))
        import re
        r = re.sub(r"^(index \S+) 10\d+$", r"\1", r, flags=re.M)
        out += r
        os.unlink(tmp.name)
    open(d + "/patch.diff", "w").write(out)
    for n, t in s["files"].items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(COMMON + s["run"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
