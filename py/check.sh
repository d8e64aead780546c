#!/bin/bash
# py/check.sh quick|thorough | py/check.sh replay <file>: ask the binding what the library has answered.
cd /verif || exit 2
TIER=$1; KEY=
if [ "$1" = replay ]; then
    TIER=$(python3 -c 'import json,sys;print("thorough" if json.load(open(sys.argv[1]))["thorough"] else "quick")' "$2")
    KEY=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["key"])' "$2")
fi
D=$(mktemp -d /tmp/c23.XXXXXX) || exit 2
# whoever stops this stops the run first: a run whose files go away would see wrong answers
trap 'kill $(jobs -p) 2>/dev/null; wait; rm -rf "$D"' EXIT
trap 'exit 4' TERM INT HUP
mkdir -p "$D/pkg" "$D/cases"
cp -r /repo/python/hudi "$D/pkg/" || exit 3
rm -f "$D"/pkg/hudi/_internal*.so
cp target/debug/libhudi_binding.so "$D/pkg/hudi/_internal.abi3.so" || exit 3
LIMIT=800; [ "$TIER" = thorough ] && LIMIT=7000
timeout -k 5 $LIMIT target/debug/mc pyref "$D/cases" "$TIER" & wait $! || { echo "the generator failed"; exit 4; }
PYTHONPATH=$D/pkg PYTHONDONTWRITEBYTECODE=1 timeout -k 5 $LIMIT /opt/vp/venv/bin/python py/drive.py "$D/cases" "$TIER" ${KEY:+"$KEY"} &
wait $!
rc=$?
case $rc in 0|1) exit $rc;; *) echo "check C23 ended with $rc"; exit 4;; esac
