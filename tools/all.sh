#!/bin/bash
# runs every claimed quick check; prints the exit code, the time and the last line of each
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]")}; do s=$(date +%s); python3 run.py $c --tier ${TIER:-quick} > /tmp/all.$c 2>&1; r=$?; echo "$c rc=$r $(($(date +%s)-s))s $(grep -c VIOLATION /tmp/all.$c) $(grep -v init /tmp/all.$c | tail -1 | cut -c1-200)"; done
