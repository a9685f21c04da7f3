#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
sed -i "s#@REPO@#$repo#g" "$work"/src/*.rs
[ -f Cargo.lock ] && cp Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
engineering = { path = "$repo" }
parking_lot = "*"
rustc-hash = "*"
smallbitset = "*"
bitset-fixed = "*"
structopt = "*"
thiserror = "*"
anyhow = "*"
regex = "*"
[profile.dev]
opt-level = 1
T
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work" && cargo build --offline -q 2>"$work/log" || { cat "$work/log"; echo "demo does not build"; exit 2; }
timeout 240 "$CARGO_TARGET_DIR/debug/demo"
