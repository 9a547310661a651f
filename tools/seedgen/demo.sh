#!/bin/sh
# Exit 0: the behaviour is right. Nonzero: it is broken. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
nmea-parser = { path = "$repo" }
log = "0.4.11"
TOML
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" 2>"$tmp/err" || { cat "$tmp/err"; exit 2; }
timeout 120 "$tmp/target/debug/demo"
