#!/bin/bash
# sweep.sh [-a] [id...]: runs the check of each planted bug's property (with -a: all checks) with the
# bug applied to /repo, and undoes it again. Results go to stdout, one line per bug and check.
cd "$(dirname "$0")/../.." || exit 3
ALL=; [ "${1:-}" = -a ] && { ALL=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  [ -n "$ALL" ] && p=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  for q in $p; do
    s=$(date +%s); out=$(timeout 900 ./check.sh "$q" quick 2>&1); rc=$?
    echo "$id $q rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 -E "^(VIOLATION|error)" | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
