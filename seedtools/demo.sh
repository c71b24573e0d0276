#!/bin/bash
# builds main.rs beside this script against the library in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 9
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here"/*.rs "$w/src/" || exit 9
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
libfranka-rs = { path = "$repo" }
nalgebra = "0.23"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log" || { cat "$w/log"; exit 9; }
timeout 60 "$w/target/debug/demo"
