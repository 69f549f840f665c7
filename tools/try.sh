#!/bin/bash
# try.sh <patch file | -R commit> <property>... : run checks of the working tree of /verif against
# a scratch copy of /repo with a patch; prints one line per property
set -u
X=${TRY_DIR:-/tmp/x}
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p $X/verif $X/repo
rsync -a --delete --exclude .build --exclude .git --exclude evidence --exclude replays --exclude seeded "$V/" $X/verif/ 2>/dev/null \
  || { for f in check engine rt host miri corpus known-findings.txt; do rm -rf "$X/verif/$f"; cp -a "$V/$f" $X/verif/; done; }
rm -rf "$X/repo"; git clone -q /repo $X/repo; cp /repo/Cargo.lock $X/repo/
if [ "$1" = -R ]; then git -C $X/repo -c user.name=x -c user.email=x@x revert -n "$2" || exit 9; name="revert $2"; shift 2
else git -C $X/repo apply "$(realpath "$1")" || exit 9; name="$1"; shift; fi
for p in "$@"; do
  t0=$(date +%s)
  (cd $X/verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./check "$p" > $X/out.$p 2>&1); rc=$?
  echo "$name $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 "^$p: " $X/out.$p | cut -c1-160)"
done
