#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
radixdb = { path = "$REPO" }
anyhow = "1"
[profile.dev]
debug = false
T
cd "$W"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
CARGO_TARGET_DIR="$W/target" cargo build --offline -q || exit 3
TMPDIR="$W" timeout 120 "$W/target/debug/demo"
