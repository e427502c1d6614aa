#!/bin/bash
# dev helper: build and run a check, summarised
. /verif/env.sh; cd /verif/mc && cargo build --release --offline > /tmp/mcbuild.log 2>&1 || { grep -E "^error" -A8 /tmp/mcbuild.log | head -40; exit 1; }
c=$1; shift
MC_VERBOSE=1 timeout 1500 $CARGO_TARGET_DIR/release/mc $c "$@" > /tmp/$c.full 2>&1; cut -c1-500 /tmp/$c.full > /tmp/$c.out; grep -E "^space|^OK|VIOLATION|violating|KNOWN" /tmp/$c.out | grep -v "viol 0$"; grep -vE "^space|^OK|VIOLATION|violating|KNOWN" /tmp/$c.out| head -${N:-10}
