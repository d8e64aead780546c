#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, then decide the property.
cd /verif || exit 2
. ./env.sh
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
CRATE=mc
[ "$ID" = C22 ] && CRATE=mcdf
mkdir -p target evidence replays
{ bash ./build.sh $CRATE && { [ "$ID" != C23 ] || bash ./build.sh py; }; } > target/build-$ID.log 2>&1 || { tail -40 target/build-$ID.log; echo "build failed: $ID"; exit 3; }
if [ "$ID" = C23 ]; then
    exec bash ./py/check.sh "$TIER"
fi
BIN=target/debug/$CRATE
# a wall-clock and memory limit of the engine itself; an engine that dies is an error, never a verdict
ulimit -v 25000000 2>/dev/null
LIMIT=840; [ "$TIER" = thorough ] && LIMIT=7000
timeout -k 5 $LIMIT "$BIN" "$ID" "$TIER" "${VERIF_SEED:-1}"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "check $ID ended with $rc"; exit 4;; esac
