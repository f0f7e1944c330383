#!/bin/bash
# run main.rs against the crate in the current directory
FEATURES=${FEATURES-rayon}; LIMIT=${LIMIT:-60}
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX); mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"; [ -f "$D/Cargo.lock" ] && cp "$D/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
ndarray-slice = { path = "$R", default-features = false, features = [$(for f in $FEATURES; do printf '"%s",' $f; done)] }
X
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true
cargo build --offline $CARGO_ARGS 2>&1 || exit 3
timeout "$LIMIT" "$T/target/${PROFILE:-debug}/demo"
