#!/bin/bash
# tools/runseed.sh seed [prop...]: apply, run the checks (default: the seed's property), undo
for s in "$1"; do p="${@:2}"; [ -z "$p" ] && p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$s/patch.diff || exit 1
for q in $p; do (cd /verif; python3-vt check.py --prop $q -v 2>&1 | cut -c1-330 | tail -${TAIL:-6}); done
git -C /repo checkout -- . ; done
