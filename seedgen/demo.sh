#!/bin/bash
# runs the scripted inputs of cases.txt on the crate in the current directory and compares what the
# callbacks and results were with what they have to be
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
http-box = { path = "$repo" }
[profile.dev]
debug-assertions = true
overflow-checks = true
[workspace]
EOF
cd "$tmp"
cargo build --offline -q 2>"$tmp/build.log" || { cat "$tmp/build.log"; exit 2; }
sed 's/ => .*//' "$here/cases.txt" > "$tmp/in.txt"
timeout 20 "$tmp/target/debug/demo" < "$tmp/in.txt" > "$tmp/out.txt" 2>/dev/null
rc=$?
python3 "$here/cmp.py" "$here/cases.txt" "$tmp/out.txt" || exit 1
[ $rc -eq 0 ]
