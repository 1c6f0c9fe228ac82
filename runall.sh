#!/bin/bash
# every registered check at the given tier (default quick), one line each
cd "$(dirname "$0")"
ids=${2:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
echo $ids | tr ' ' '\n' | xargs -P 6 -I{} sh -c 'o=$(timeout 900 python3 check.py {} '${1:-quick}' 2>&1); r=$?; echo "{} rc=$r $(echo "$o" | grep "obligations" | head -1)$(echo "$o" | grep -c VIOLATION)"'
