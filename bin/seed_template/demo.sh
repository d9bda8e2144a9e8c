#!/bin/bash
# Compiles demo.rs against /repo's crate in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/offline/env.sh
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/util.rs" "$d/src/util.rs" || exit 9
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mega-evm = { path = "$WS/crates/mega-evm" }
mega-system-contracts = { path = "$WS/crates/system-contracts" }
revm = { version = "27.1.0", default-features = false, features = ["std"] }
op-revm = { version = "8.1.0", default-features = false, features = ["std"] }
alloy-primitives = { version = "1.3.0", default-features = false }
alloy-consensus = { version = "1.0.23", default-features = false }
alloy-eips = { version = "1.0.23", default-features = false }
alloy-evm = { version = "0.15.0", default-features = false }
alloy-op-evm = { version = "0.15.0", default-features = false }
alloy-hardforks = { version = "0.2.7", default-features = false }
alloy-sol-types = { version = "1.0.23", default-features = false }
op-alloy-consensus = { version = "0.18.12", default-features = false }
[profile.dev]
debug = false
TOML
cp "$WS/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 cargo build --offline -q 2> "$d/log" || { tail -40 "$d/log"; exit 8; }
timeout 100 "$d/target/debug/demo"
