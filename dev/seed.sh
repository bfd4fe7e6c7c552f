#!/bin/bash
# dev/seed.sh ID... : confirm planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private namespace)
# each: applies, builds, stable tests pass, demo fails with it and passes without it
S=/tmp/sr
H=$(cd "$(dirname "$0")/.." && pwd)
[ -d $S ] || cp -a /repo $S
git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
run() { unshare -Urm bash -c "mount --bind $S /repo && cd /repo && $1"; }
cmp() { python3 - "$1" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed']); base=b.get('stable') or b.get('passed') or b.get('tests') or b
skip=set(open('/tmp/seed_skip.txt').read().split('\n')) if __import__('os').path.exists('/tmp/seed_skip.txt') else set()
miss=[t for t in base if t not in p and t not in skip]
print("   stable tests missing:",len(miss),miss[:4])
PY
}
if [ "$1" = base ]; then run "bash /opt/vp/build.sh" >/tmp/seed_b.log 2>&1; run "bash /opt/vp/test.sh /tmp/seed_t.json" >/tmp/seed_tl.log 2>&1; cmp /tmp/seed_t.json; exit; fi
for id in "$@"; do
  echo "== $id"; D=$H/seeded/$id
  git -C $S checkout -q -- . ; git -C $S apply $D/patch.diff || { echo "   DOES NOT APPLY"; continue; }
  run "bash /opt/vp/build.sh" >/tmp/seed_b.log 2>&1 || { echo "   BUILD FAILS"; tail -5 /tmp/seed_b.log; git -C $S checkout -q -- .; continue; }
  run "timeout 300 bash $D/demo.sh" >/tmp/seed_d1.log 2>&1; r1=$?
  [ "$NOTEST" ] || { run "bash /opt/vp/test.sh /tmp/seed_t.json" >/tmp/seed_tl.log 2>&1; cmp /tmp/seed_t.json; }
  git -C $S checkout -q -- .
  (cd /repo && timeout 300 bash $D/demo.sh) >/tmp/seed_d0.log 2>&1; r0=$?
  echo "   demo: patched exit $r1, unpatched exit $r0"
done
