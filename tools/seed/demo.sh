#!/bin/bash
# cwd: the json-ld repository. Builds the small program beside this file against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
crate=/tmp/jsonld-demo/$(basename "$here")
mkdir -p "$crate/src" || exit 3
cp "$here/main.rs" "$crate/src/main.rs"
cat > "$crate/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
json-ld = { path = "$repo", features = ["serde"] }
json-ld-core = { path = "$repo/crates/core", features = ["serde"] }
json-syntax = { version = "0.12", features = ["canonicalize", "serde"] }
rdf-types = "0.22"
contextual = "0.1.4"
iref = "3.1.2"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$crate/Cargo.lock"
cd "$crate" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/jsonld-demo/target
cargo build --quiet --offline 2>build.log || { tail -20 build.log; exit 3; }
exec /tmp/jsonld-demo/target/debug/demo
