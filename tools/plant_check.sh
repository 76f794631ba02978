#!/bin/bash
# plant_check.sh ID...: confirms planted changes in a scratch copy of /repo (build, stable tests, demonstration both ways).
. /opt/vp/env.sh
W=/tmp/pl/repo
mkdir -p /tmp/pl
[ -d $W ] || cp -a /repo $W
rsync -a --delete --exclude target --exclude .git /repo/ $W/ 2>/dev/null || { rm -rf /tmp/pl/repo; cp -a /repo $W; }
cd $W || exit 1
git -C $W fetch -q /repo HEAD 2>/dev/null && git -C $W reset -q --hard FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf /tmp/pl/demo; mkdir -p /tmp/pl/demo; cp -a $d/. /tmp/pl/demo/; rm -f /tmp/pl/demo/*.diff /tmp/pl/demo/meta.json
  git checkout -q -- .
  clean_generated; rm -f generator/tests/generated*.rs
  timeout 300 bash /tmp/pl/demo/demo.sh >/tmp/pl/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! cargo test --workspace --all-targets --no-run --offline >/tmp/pl/build.log 2>&1; then echo "$id: BUILD FAILS"; grep -E -A5 '^error' /tmp/pl/build.log | head; git checkout -q -- .; continue; fi
  rm -f generator/tests/generated*.rs
  timeout -k 10 840 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/pl/test.log 2>&1
  rm -f generator/tests/generated*.rs
  python3 /opt/vp/results.py /tmp/pl/res.json cargo:/tmp/pl/test.log
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/pl/res.json'))
k=[k for k in b if isinstance(b[k],list)]
st=b.get('passed') or b.get('stable') or b[k[0]]
p=set(r['passed']); m=[x for x in st if x not in p]
print('tests-ok' if not m else 'TESTS BROKEN: '+', '.join(m[:5]))
P
)
  timeout 300 bash /tmp/pl/demo/demo.sh >/tmp/pl/demo1.log 2>&1; r1=$?
  git checkout -q -- .
  echo "$id: demo unpatched=$r0 patched=$r1 $t"
done
