#!/bin/bash
# trybug.sh ID [PROPERTY]: apply a planted bug, run its check, undo
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p | grep -v " proved "| tail -${N:-8}
