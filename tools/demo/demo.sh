#!/bin/bash
# Builds the demonstration against /repo (the working directory) in a scratch folder and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" || exit 99
cp "$here"/main.rs "$here"/common.rs "$work/src/" || exit 99
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ephemeral-vrf-program = { path = "$repo/program" }
ephemeral-vrf-api = { path = "$repo/api" }
solana-program = "3.0.0"
curve25519-dalek = "4"
T
cd "$work" || exit 99
CARGO_NET_OFFLINE=true cargo +1.93.0 build --offline --target-dir "$work/t" >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 98; }
./t/debug/demo
