#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat >"$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
serde_json = "1.0.117"
jsonpath_rfc9535_iter = { path = "$R/crates/jsonpath_rfc9535_iter" }
[profile.dev]
debug = 0
END
cd "$T" || exit 2
cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 2; }
timeout 60 "$T/target/debug/demo"
