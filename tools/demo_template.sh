#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
parquet2 = { path = "$repo", features = ["full"] }
parquet-format-safe = "0.2"
futures = "0.3"
[workspace]
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo +stable build --offline --quiet 2>"$d/build.log" || { cat "$d/build.log"; exit 2; }
"$d/target/debug/demo"
