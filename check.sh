#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the harness from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 3
bash ./build.sh || exit 3
exec ./target/debug/vharness check "$1" "${2:-quick}" --seed "${VERIF_SEED:-1}"
