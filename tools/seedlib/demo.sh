#!/bin/bash
# run in /repo: builds the small program main.rs against the crate and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
noodle = { path = "$repo/noodle" }
[workspace]
EOF
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2> "$tmp/build.log" || { cat "$tmp/build.log"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
