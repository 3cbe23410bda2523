#!/bin/bash
# Builds demo.rs (beside this file) against /repo's runtime crate in a scratch directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zserio = { path = "/repo/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
T
cd "$d" || exit 99
timeout 250 cargo run -q --offline --target-dir "$d/target"
