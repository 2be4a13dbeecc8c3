#!/bin/bash
# dev helper: rebuild the simulator only
. /verif/env.sh; cd /verif/sim; CARGO_TARGET_DIR=/verif/target/sim cargo build --release 2>&1 | grep -E "^(error|warning: unused)" -A6 | head -40
