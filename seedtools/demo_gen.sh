#!/bin/bash
# Generates code for demo.zs (beside this file) with /repo's generator, compiles it with demo.rs in a scratch directory, runs it.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/gen/src" "$d/app/src" "$d/zs"
cp "$here/demo.zs" "$d/zs/demo.zs"
cp /repo/Cargo.lock "$d/gen/Cargo.lock"
cp /repo/Cargo.lock "$d/app/Cargo.lock"
cat > "$d/gen/Cargo.toml" <<T
[package]
name = "gen"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zserio-rs-build = { path = "/repo/crates/zserio-rs-build" }
[profile.dev]
debug = 0
T
cat > "$d/gen/src/main.rs" <<T
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut m = zserio_rs_build::Model::from_filesystem(std::path::Path::new(&a[1]));
    m.evaluate();
    zserio_rs_build::generate_model(&mut m, std::path::Path::new(&a[2]), "");
}
T
(cd "$d/gen" && timeout 200 cargo run -q --offline --target-dir "$d/target" -- "$d/zs" "$d/out") || exit 1
cp -r "$d/out/." "$d/app/src/"
(echo '#![allow(warnings)]'; cat "$d/app/src/lib.rs" "$here/demo.rs") > "$d/app/src/main.rs"
rm "$d/app/src/lib.rs"
cat > "$d/app/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zserio = { path = "/repo/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
bitmask-enum = "2.2.4"
num = "0.4.3"
[profile.dev]
debug = 0
T
cd "$d/app" && timeout 200 cargo run -q --offline --target-dir "$d/target"
