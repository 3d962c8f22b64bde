#!/bin/bash
# development aid: run every claimed check (quick by default) and print one line each
cd "$(dirname "$0")/.." || exit 1
for p in ${*:-$(python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]")}; do S=$(date +%s); ./check.py $p ${TIER:-quick} > /tmp/all_$p.log 2>&1; echo "$p rc=$? $(( $(date +%s) - S ))s $(grep -E '^ok|VIOL' /tmp/all_$p.log | cut -c1-150)"; done
