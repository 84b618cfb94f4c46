#!/bin/bash
# Builds main.rs (beside this file) against the crate in the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true OPENBLAS_NUM_THREADS=1
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.1"
edition = "2024"
[workspace]
[dependencies]
ndarray-glm = { path = "$repo", features = ["openblas-system", "stats"] }
ndarray = { version = "0.17", features = ["blas"] }
TOML
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet || exit 3
timeout 60 "$tmp/target/debug/demo"
