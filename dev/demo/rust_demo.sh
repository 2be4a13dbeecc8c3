#!/bin/bash
# Compiles main.rs against the library in the current directory and runs it in a scratch folder.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/pfp-demo-XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir "$S/crate" "$S/crate/src" "$S/work"
cp "$D/main.rs" "$S/crate/src/main.rs"
cp "$R/Cargo.lock" "$S/crate/Cargo.lock" 2>/dev/null
cat > "$S/crate/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pfp = { path = "$R/pfp" }
secrecy = "*"
[workspace]
T
cd "$S/crate" || exit 2
CARGO_TARGET_DIR="$S/target" cargo build --offline >"$S/log" 2>&1 || { cat "$S/log"; exit 3; }
cd "$S/work" && timeout 120 "$S/target/debug/demo" "$S/work"
