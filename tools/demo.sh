#!/bin/bash
# Builds the small program beside this script against /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
d=$(mktemp -d /tmp/otdemo.XXXXXX) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/p/src"
cp "$here/main.rs" "$d/p/src/main.rs"
cp /repo/Cargo.lock "$d/p/Cargo.lock"
cat > "$d/p/Cargo.toml" <<'T'
[package]
name = "otdemo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
over-there = { path = "/repo", features = ["cli", "format-sexpression"] }
tokio = { version = "0.2.13", features = ["fs", "io-util", "macros", "process", "sync", "time", "tcp", "udp", "rt-core", "test-util"] }
futures = "0.3"
serde_json = "1"
T
cd "$d/p" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/log" || { tail -40 "$d/log"; exit 3; }
mkdir "$d/scratch" && cd "$d/scratch" || exit 3
timeout 120 "$d/target/debug/otdemo"
