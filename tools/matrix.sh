#!/bin/bash
# matrix.sh [bug id]... : each planted bug against the check of its property
cd "$(dirname "$0")/.." || exit 1
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$b/meta.json'))['property'])")
  tools/try.sh seeded/$b/patch.diff $p ${EXTRA:-}
done
