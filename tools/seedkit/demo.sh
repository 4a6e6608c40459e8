#!/bin/bash
# Builds demo.rs against the tower in the current directory; passes iff the property's scenario behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/util.rs" "$d/src/util.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "vharness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tower = { path = "$repo/tower", features = ["full"] }
tower-service = { path = "$repo/tower-service" }
tower-layer = { path = "$repo/tower-layer" }
tower-test = { path = "$repo/tower-test" }
tokio = { version = "1", features = ["rt", "rt-multi-thread", "time", "sync", "macros", "test-util"] }
tokio-stream = "0.1"
futures-util = "0.3"
futures-core = "0.3"
serde_json = "1"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q
