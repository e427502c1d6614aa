#!/bin/bash
# run.sh <property> [quick|thorough] [--replay FILE] [--space NAME]
# Rebuilds the explorer the property needs against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=$(mktemp) || exit 2
build() {
    if ! cargo build --release --offline --manifest-path "$1/Cargo.toml" >"$log" 2>&1; then
        tail -n 60 "$log" >&2
        return 1
    fi
}
# another configuration of the library: directory, features
conf() {
    if ! CARGO_TARGET_DIR=$CARGO_TARGET_DIR/$1 cargo build --release --offline --manifest-path mcn/Cargo.toml --features "$2" >"$log" 2>&1; then
        tail -n 60 "$log" >&2
        return 1
    fi
}
confs() { conf n0 "" && conf n1 full && conf n2 extra; }
# the library compiles, and something built on it does not: $1 property
unbuilt() {
    mkdir -p out
    mv "$log" "out/$1-build.log"
    echo "VIOLATION property=$1 replay=/verif/out/$1-build.log"
    exit 1
}
if [ "$1" = --build ]; then
    for c in mc mcx; do build $c || { rm -f "$log"; exit 2; }; done
    confs || { rm -f "$log"; exit 2; }
    rm -f "$log"
    exit 0
fi
case $1 in
C26 | C27) crate=mcx ;;
*) crate=mc ;;
esac
if ! build $crate; then
    if [ "$1" = C26 ]; then
        cp "$log" "$log.1"
        if build mc; then
            mv "$log.1" "$log"
            unbuilt C26
        fi
        rm -f "$log.1"
    fi
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
if [ "$1" = C32 ] && ! confs; then
    unbuilt C32
fi
rm -f "$log"
log=$(mktemp) || exit 2
"$CARGO_TARGET_DIR/release/$crate" "$@" 2> >(tee "$log" >&2)
rc=$?
case $rc in
132 | 134 | 135 | 136 | 139)
    # ended by a fault in the library's unsafe code (heap corruption, wild access, stack overflow)
    mkdir -p out
    sleep 1
    { echo "./run.sh $*: ended by signal $((rc - 128)) while exploring"; tail -n 40 "$log"; } >"out/$1-crash.log"
    rm -f "$log"
    echo "VIOLATION property=$1 replay=/verif/out/$1-crash.log"
    exit 1
    ;;
esac
rm -f "$log"
exit $rc
