#!/bin/bash
# every claimed check, one after another
cd "$(dirname "$0")/.."
for c in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  bin/check $c ${1:-quick} > /tmp/run_$c.log 2>&1; echo "rc=$? $(grep -E "^$c " /tmp/run_$c.log | tail -1 | cut -c1-220)"
done
