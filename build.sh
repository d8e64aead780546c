#!/bin/bash
# build.sh <crate>: build a harness crate against /repo's working tree into /verif/target.
# The sources are fingerprinted by content, so that a tree whose files only look unchanged by time is rebuilt.
cd /verif || exit 2
. ./env.sh
mkdir -p target
exec 9> target/.build.lock
flock 9
CRATE=$1
NOW=$(cd /repo && find Cargo.toml crates python/src python/Cargo.toml -type f -not -path '*/target/*' \( -name '*.rs' -o -name '*.toml' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
STAMP=target/.stamp-$CRATE
if [ "$(cat "$STAMP" 2>/dev/null)" != "$NOW" ]; then
    # force the crates of /repo to be compiled anew
    rm -rf /verif/target/debug/.fingerprint/hudi-*
    rm -f "$STAMP"
fi
(cd $CRATE && timeout 1700 cargo build --offline --locked) || exit 1
echo "$NOW" > "$STAMP"
