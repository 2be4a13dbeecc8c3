#!/bin/bash
# ./check.sh PROPERTY [quick|thorough]: rebuilds from /repo's current tree and searches for violations of one property.
# Exit 0: none found. Exit 1: VIOLATION line(s). Exit 2: the check itself could not run.
cd "$(dirname "$0")" || exit 2
V=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
./build.sh >&2 || exit 2
case $tier in
    thorough) count=${VERIF_RUNS:-400000}; secs=${VERIF_SECONDS:-780} ;;
    *) count=${VERIF_RUNS:-8000}; secs=${VERIF_SECONDS:-150} ;;
esac
workers=$(nproc 2>/dev/null || echo 4)
exec "$V/target/sim/release/pfpsim" check "$prop" "$tier" "$seed" "$V/target" "$workers" "$count" "$secs" "$V"
