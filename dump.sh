#!/bin/bash
# dump.sh NAME FEATURES...: dump the MIR of the harness with /repo's current source into work/NAME.json
set -e
cd "$(dirname "$0")"
NAME=$1; shift
W=${VERIF_WORK:-$PWD/work}
mkdir -p "$W"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTUP_TOOLCHAIN
(cd mirdump && CARGO_TARGET_DIR=$PWD/target cargo +nightly build --offline --release -q)
SYS=$(rustc +nightly --print sysroot)
# DUMP_RELEASE=1: as a release build compiles it, without debug assertions and overflow checks
CHECKS=on
[ -z "$DUMP_RELEASE" ] || CHECKS=off
T=$W/target-$CHECKS
export LD_LIBRARY_PATH=$SYS/lib:$LD_LIBRARY_PATH
export MIRDUMP_OUT=$W/$NAME.json MIRDUMP_CRATE=harness
rm -f "$W/$NAME.json"
# the wrapper is skipped for a fresh crate: force a rebuild of the harness
export HARNESS_STAMP=$(date +%s%N)
touch_flag="--cfg stamp=\"$HARNESS_STAMP\""
cd harness
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=$CHECKS -Cdebug-assertions=$CHECKS -Zub-checks=no -Zinline-mir=no"
CARGO_TARGET_DIR=$T RUSTC_WORKSPACE_WRAPPER=$OLDPWD/mirdump/target/release/mirdump cargo +nightly rustc --offline --lib --no-default-features ${1:+--features "$1"} -- --cfg "stamp=\"$HARNESS_STAMP\"" -Awarnings
[ -s "$W/$NAME.json" ]
