#!/bin/bash
# Builds demo.rs (beside this script) against the doodle tree in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
doodle = { path = "$repo" }
smallsorts = { path = "$repo/smallsorts" }
doodle-formats = { path = "$repo/doodle-formats" }
doodle_gencode = { path = "$repo/generated" }
[profile.dev]
debug = 0
TOML
grep -q "doodle_formats" "$here/demo.rs" || sed -i '/^doodle-formats/d' "$work/Cargo.toml"
grep -q "doodle_gencode" "$here/demo.rs" || sed -i '/^doodle_gencode/d' "$work/Cargo.toml"
grep -q "smallsorts" "$here/demo.rs" || sed -i '/^smallsorts/d' "$work/Cargo.toml"
cd "$work" || exit 3
CARGO_NET_OFFLINE=true cargo build --offline --quiet --target-dir "$work/target" > "$work/build.log" 2>&1 || { tail -20 "$work/build.log"; exit 3; }
timeout 60 "$work/target/debug/demo"
