#!/bin/bash
# Run with cwd = the repository. Builds demo.rs against ./yamux in a scratch folder of its own.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/sim.rs" "$t/src/sim.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
yamux = { path = "$repo/yamux" }
futures = { version = "0.3", default-features = false, features = ["std", "executor"] }
[profile.dev]
opt-level = 1
debug = false
[workspace]
X
cd "$t" || exit 99
export RUSTFLAGS=-Awarnings
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline -q || exit 98
timeout 200 "$t/target/debug/demo"
