#!/bin/sh
# builds the small driver beside this file against the repository in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
gdbstub = { path = "$repo" }
gdbstub_arch = { path = "$repo/gdbstub_arch" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" timeout 250 cargo run --offline -q
