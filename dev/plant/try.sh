#!/bin/bash
# try.sh [ids]: run the property's check on each bug
cd /tmp/plant
for i in ${@:-$(ls out)}; do
  p=$(python3 -c "import sys;sys.path.insert(0,'/tmp/plant');from bugs import B;import bugs4, bugs5, bugs6;print(B['$i'][0])")
  git -C /repo apply /tmp/plant/out/$i/patch.diff || { echo "$i APPLY"; continue; }
  o=$(VERIF_SEED=1 timeout 900 /verif/check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(echo "$o" | grep -v KNOWN | grep -m3 -A1 VIOLATION | cut -c1-200 | tr '\n' '|')"
done
