#!/bin/bash
# Builds main.rs beside this file against the tree in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bytedata = { path = "$repo", default-features = false, features = [@F@] }
@D@
EOF
export RUSTUP_TOOLCHAIN=nightly-2025-03-06 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d"; cp "$repo/Cargo.lock" . 2>/dev/null || true
timeout 250 cargo run --quiet --offline
