#!/bin/bash
# dev helper: build and run a check of the macro explorer, summarised
. /verif/env.sh; cd /verif/mcx && cargo build --release --offline > /tmp/mcxbuild.log 2>&1 || { grep -E "^error" -A8 /tmp/mcxbuild.log | head -60; exit 1; }
c=$1; shift
MC_HANG=${MC_HANG:-30} MC_VERBOSE=1 timeout 1500 $CARGO_TARGET_DIR/release/mcx $c "$@" > /tmp/$c.full 2>&1; cut -c1-500 /tmp/$c.full > /tmp/$c.out; grep -E "^space|^OK|VIOLATION|violating|KNOWN" /tmp/$c.out ; grep -vE "^space|^OK|VIOLATION|violating|KNOWN" /tmp/$c.out| shuf -n ${N:-10}
