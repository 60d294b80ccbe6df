#!/bin/bash
# Builds demo.rs against /repo's contracts (in a scratch directory) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
mkdir -p "$tmp/src"
cp "$here/kit.rs" "$tmp/src/kit.rs"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp /repo/Cargo.lock "$tmp/Cargo.lock"
{
  cat <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
cosmwasm-std = { version = "1.5.4", features = ["ibc3", "cosmwasm_1_2", "staking", "stargate"] }
cw-multi-test = { version = "0.20.1", features = ["cosmwasm_1_2"] }
serde_json = "1.0"
T
  cat "$here/deps.txt"
} > "$tmp/Cargo.toml"
cd "$tmp" && cargo build --offline -q || { echo "demo does not build"; exit 3; }
"$CARGO_TARGET_DIR/debug/demo"
