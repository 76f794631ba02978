#!/bin/bash
# detect.sh ID [TIER]: applies a planted change to /repo, runs the check of its property, undoes it.
for id in "$1"; do
  d=/verif/seeded/$id
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || exit 9
  t0=$(date +%s)
  out=$(cd /verif && ./check.sh $prop ${2:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-t0 ))s: $(echo "$out" | grep -E 'VIOLATION|error|failed' | head -2 | tr '\n' ' ')"
  [ -n "$SHOW" ] && echo "$out" | tail -30
done
exit 0
