#!/bin/bash
# allchk.sh SEED [props...]
s=$1; shift
P=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C19 C20 C21 C22}
cd /verif; ./build.sh >/dev/null 2>&1 || echo BUILD
for p in $P; do VERIF_SEED=$s ./check.sh $p ${T:-quick} > /tmp/chk.$p.$s 2>/tmp/chk.$p.$s.err; r=$?; echo "$p seed $s: $r $(grep -c VIOL /tmp/chk.$p.$s)"; [ $r != 0 ] && cat /tmp/chk.$p.$s /tmp/chk.$p.$s.err | tail -8 | cut -c1-500; grep -q stumbl /verif/evidence/$p.json && echo "  STUMBLED"; done
