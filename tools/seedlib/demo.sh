#!/bin/bash
# Run in the repository's root. Builds the program beside this script against it and runs it:
# exit 0 if the behaviour is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
work=$(mktemp -d /tmp/kameo-demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kameo = { path = "$repo" }
kameo_actors = { path = "$repo/actors" }
tokio = { version = "1", features = ["full", "test-util"] }
futures = "0.3"
serde = { version = "1", features = ["derive"] }
glob = "0.3"
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
(cd "$work" && cargo build --offline -q 2>"$work/log") || { tail -30 "$work/log"; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
