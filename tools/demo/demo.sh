#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH HOME=${HOME:-/root}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
fawkes-crypto = { path = "$repo" }
typenum = "=1.12.0"
serde = "1.0"
serde_json = "1.0"
num = "0.2.1"
rand = "=0.4"
borsh = "0.7.0"
ff = { version = "=0.7", features = ["derive"], package = "ff_ce" }
pairing = { version = "=0.18", package = "pairing_ce" }
bellman = { version = "=0.3.1", package = "bellman_ce", default-features = false }
[profile.dev]
debug = false
EOT
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2>"$tmp/err" || { cat "$tmp/err"; exit 9; }
"$tmp/target/debug/demo"
