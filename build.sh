#!/bin/bash
# Builds the simulator and the real programs from /repo's current tree into /verif/target.
cd "$(dirname "$0")" || exit 2
V=$PWD
. ./env.sh
mkdir -p target
exec 9>target/.lock
flock 9
gcc -O2 -Wall -fPIC -shared -o target/shim.so.new shim/shim.c -ldl && mv -f target/shim.so.new target/shim.so || exit 2
part() {
    (cd "$V/$1" && CARGO_TARGET_DIR="$V/target/$2" cargo build --offline --release >"$V/target/$2.log" 2>&1) || { echo "build of $1 failed" >&2; grep -A12 '^error' "$V/target/$2.log" >&2; tail -5 "$V/target/$2.log" >&2; return 1; }
}
part targets/cli cli & a=$!
part targets/libdrv lib & b=$!
part sim sim & c=$!
r=0
wait $a || r=2
wait $b || r=2
wait $c || r=2
exit $r
