#!/bin/bash
# dev helper: ./one.sh PROP SEED [lines] [width]
/verif/target/sim/release/pfpsim one /verif/target $1 $2 2>&1 | grep -v "^ *[0-9]* *\(read\|write\) " | cut -c1-${4:-400} | tail -${3:-14}
