#!/bin/bash
# developer helper: run a check and print per-contract results
cd "$(dirname "$0")/.."; P=$1; shift; python3-vt vcgen/check.py $P "$@" 2>&1 | tail -30
python3-vt - $P <<'X'
import json,sys
e=json.load(open('evidence/%s.json'%sys.argv[1]))
for c in e['coverage']['contracts']: print(c['contract'],c['status'],c['obligations'],c['folded_during_generation'],c['loops_cut'],c['invariants'],c['wall_s'])
X
