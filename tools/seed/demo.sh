#!/bin/bash
# Run in the repository after its build: exit 0 if the demonstrated behaviour holds.
# Builds demo.rs (beside this file) against the crate in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nruruby-parse = { path = "%s" }\n' "$R" > "$W/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" CARGO_PROFILE_DEV_DEBUG=0
unset RUSTC_WRAPPER RUSTFLAGS
cargo build --offline -q --manifest-path "$W/Cargo.toml" 2> "$W/log" || { tail -20 "$W/log"; exit 3; }
timeout 20 "$W/target/debug/demo"
