#!/bin/bash
# Build the framework from the committed files, offline.
cd /verif || exit 2
bash ./build.sh mc || exit 1
[ -d mcdf ] && { bash ./build.sh mcdf || exit 1; }
[ -d py ] && { bash ./py/build.sh || exit 1; }
exit 0
