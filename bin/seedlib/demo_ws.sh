#!/bin/bash
# Compiles the real crates from /repo with stand-ins (ws/shims) for the libraries that are not
# available offline and runs demo.rs against them, in a scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root; for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$W"' EXIT
export CARGO_TARGET_DIR=$W/target DEMO_DIR=$W/scratch
mkdir -p "$DEMO_DIR"
[ -d /opt/vp/target ] && cp -a /opt/vp/target "$W/target" 2>/dev/null
cp -a "$HERE/ws" "$W/ws"
mkdir -p "$W/ws/demo/src"
cp /opt/vp/common.Cargo.lock "$W/ws/Cargo.lock" 2>/dev/null
printf '[workspace]\nresolver = "2"\nmembers = ["mirror/common", "demo"]\n' > "$W/ws/Cargo.toml"
cp "$HERE/demo.rs" "$W/ws/demo/src/main.rs"
cp "$HERE/demo.toml" "$W/ws/demo/Cargo.toml"
cd "$W/ws" || exit 99
cargo build -q --offline -p demo > "$W/log" 2>&1 || { tail -40 "$W/log"; exit 98; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
