#!/bin/bash
# usage: try_bug.sh ID [PROPERTY...]: applies seeded/ID to /repo, builds, tests,
# runs the demo and the checks (default: the property of meta.json), undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
B=$V/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
D=$(mktemp -d); cp -a "$B" "$D/b"
trap 'git -C /repo checkout -q -- .; rm -rf "$D"' EXIT
(bash "$D/b/demo.sh" >/dev/null 2>&1) || echo "$ID BAD: demo fails on the unchanged tree"
git apply "$B/patch.diff" || { echo "$ID BAD: patch"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID BAD: build"
bash /opt/vp/test.sh "$D/t.json" >/dev/null 2>&1
python3 - "$D/t.json" "$ID" <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    raise SystemExit('keys %s' % list(x))
m=names(b)-names(t)
if m: print(sys.argv[2],'BAD: tests fail',sorted(m)[:4])
P
(bash "$D/b/demo.sh" >/dev/null 2>&1) && echo "$ID BAD: demo passes with the patch"
for p in $PROPS; do
  O=$("$V/check.sh" "$p" quick 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$O"; then echo "$ID caught by $p: $(grep -m1 '^violated' <<<"$O" | cut -c1-220)"; else echo "$ID MISSED by $p (rc $rc) $(tail -n 3 <<<"$O" | cut -c1-300)"; fi
done
