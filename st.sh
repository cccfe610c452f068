#!/bin/bash
# developer: run checks and show per-harness times
for p in "$@"; do timeout 900 python3 /verif/check.py $p 2>&1 | tail -12 | cut -c1-300; python3 -c "
import json
d=json.load(open('/verif/evidence/$p.json')); print('wall',d['wall_s'])
for h in d['coverage']['harnesses']: print(' ',h['harness'],h['status'],h['symex_s'],h['solver_s'],h['vccs'])"; done
