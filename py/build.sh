#!/bin/bash
# Build the Python binding from /repo's working tree, and the generator of its reference answers.
cd /verif || exit 2
bash ./build.sh mc || exit 1
bash ./build.sh py || exit 1
