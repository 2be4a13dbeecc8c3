#!/bin/bash
# dev helper: ./dev.sh PROP [count] [seconds] : survey
T=/verif/target
RUST_BACKTRACE=0 timeout 300 $T/sim/release/pfpsim survey $1 quick ${SEED:-1} $T 8 ${2:-400} ${3:-15} 2>/tmp/survey.err | cut -c1-${W:-330}
sort /tmp/survey.err | uniq -c | sort -rn | head -${E:-4} | cut -c1-300
