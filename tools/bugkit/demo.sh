#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds; nonzero: broken.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
S=$(mktemp -d /tmp/pkstl-demo.XXXXXX)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$HERE"/*.rs "$S/src/"
cp "$HERE/Cargo.lock" "$S/"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pkstl = { path = "$REPO", features = ["bin", "cbor", "json"] }
ring = "0.16.9"
flate2 = "1.0.13"
serde = { version = "1.0", features = ["derive"] }
[profile.dev]
opt-level = 1
debug = 0
T
unset RUSTFLAGS
export RUSTUP_TOOLCHAIN=1.77.2 PATH="$HOME/.cargo/bin:$PATH" CARGO_TARGET_DIR="$S/target"
cd "$S"
cargo build --offline -q 2>"$S/log" || { cat "$S/log"; exit 2; }
timeout 200 "$S/target/debug/demo"
