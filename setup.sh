#!/bin/bash
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd mirdump && CARGO_TARGET_DIR=$PWD/target cargo +nightly build --offline --release -q)
(cd analyzer && cargo build --offline --release -q)
