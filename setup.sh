#!/bin/bash
# Builds all checks once, so that each check afterwards only rebuilds what changed in /repo.
export VERIF_PREBUILD=1
cd "$(dirname "$0")" || exit 3
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  ./check.sh "$p" build || exit 3
done
