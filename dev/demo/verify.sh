#!/bin/bash
# verify.sh DIR [ids]: demo clean and patched in /tmp/wt
S=$1; shift
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/wt/target
cd /tmp/wt && git checkout -q -- . && git fetch -q /repo main && git reset -q --hard FETCH_HEAD
for i in ${@:-$(ls $S)}; do
  git checkout -q -- .; 
  cargo build -q --workspace --offline 2>/dev/null; $S/$i/demo.sh >/tmp/demo/clean.out 2>&1; c=$?
  git apply $S/$i/patch.diff || { echo "$i APPLY"; continue; }
  cargo build -q --workspace --offline 2>/dev/null || echo BUILD $i
  $S/$i/demo.sh >/tmp/demo/bug.out 2>&1; b=$?
  git checkout -q -- .
  echo "$i clean=$c bug=$b $(tail -1 /tmp/demo/bug.out | cut -c1-150)"
done
