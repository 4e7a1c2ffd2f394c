#!/bin/bash
# Builds the program beside this script against the crate in the current
# directory and runs it: exit 0 if it behaves as promised.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 99
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
sized-chunks = { path = "$repo", features = ["std", "ringbuffer"] }
array-ops = "0.1.0"
[workspace]
EOT
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
