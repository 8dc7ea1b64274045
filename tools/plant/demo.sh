#!/bin/bash
# builds demo.rs (beside this file) against the crate in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$here/y.rs" ] && cp "$here/y.rs" "$d/src/y.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
static-math = { path = "$repo" }
num = { version = "0.4", default-features = false }
[profile.dev]
debug = false
[workspace]
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" || exit 9
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 8; }
timeout 100 "$d/target/debug/demo"
