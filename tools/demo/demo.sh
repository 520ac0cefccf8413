#!/bin/bash
# Builds and runs the program beside this file against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$here/common.rs" "$work/src/"
for l in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do [ -f "$l" ] && cp "$l" "$work/Cargo.lock" && break; done
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
haproxy-spop = { path = "$repo/spop" }
haproxy-spoa = { path = "$repo/spoa" }
tokio = { version = "1", features = ["rt", "rt-multi-thread", "macros", "io-util", "net", "time", "sync"] }
tokio-util = { version = "0.7", features = ["rt"] }
tower = { version = "0.5", features = ["make", "util"] }
bytes = "1"
futures = "0.3"
http = "1"
T
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" 2> "$work/log" || { grep -A12 "^error" "$work/log" | head -60; echo "demo does not build"; exit 98; }
timeout 120 "$work/target/debug/demo"
