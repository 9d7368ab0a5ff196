#!/bin/bash
# exit 0 exactly when main.rs, linked against the library in the current directory, finds nothing wrong
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
features=$(cat "$here/features" 2>/dev/null)
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tezos-data-model = { path = "$repo", features = [$features] }
num-bigint = "0.4.3"
[profile.dev]
debug = 0
T
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
timeout 250 cargo run --offline -q
