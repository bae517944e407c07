#!/bin/bash
# Builds a small program against /repo's crates in a scratch directory and runs it:
# exit 0 when the property holds on its input.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp "$here"/Cargo.toml "$here"/Cargo.lock "$here"/main.rs "$work"/
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2025-04-06 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$work/target"
export RUSTFLAGS="--cfg cairo_m_vp -Awarnings" CARGO_PROFILE_DEV_DEBUG=0 RUST_MIN_STACK=268435456
cd "$work" && cargo build --offline -q || exit 3
cd "$work" && timeout 100 ./target/debug/demo
