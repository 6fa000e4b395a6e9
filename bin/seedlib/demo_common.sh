#!/bin/bash
# Compiles the real `common` crate from /repo with a type-only stand-in for arrow2 and runs
# demo.rs against it, in a scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root; for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$W"' EXIT
export CARGO_TARGET_DIR=$W/target
[ -d /opt/vp/target ] && cp -a /opt/vp/target "$W/target" 2>/dev/null
mkdir -p "$W/ws/arrow2/src" "$W/ws/common" "$W/ws/demo/src"
cp /opt/vp/common.Cargo.lock "$W/ws/Cargo.lock" 2>/dev/null
printf '[workspace]\nresolver = "2"\nmembers = ["arrow2", "common", "demo"]\n' > "$W/ws/Cargo.toml"
cp "$HERE/arrow2_datatypes.rs" "$W/ws/arrow2/src/datatypes.rs"
echo 'pub mod datatypes;' > "$W/ws/arrow2/src/lib.rs"
printf '[package]\nname = "arrow2"\nversion = "0.17.4"\nedition = "2021"\n' > "$W/ws/arrow2/Cargo.toml"
sed -e 's|^arrow2 = .*|arrow2 = { path = "../arrow2" }|' -e 's|^\[dependencies\]|[lib]\npath = "/repo/src/common/src/lib.rs"\n\n[dependencies]|' /repo/src/common/Cargo.toml > "$W/ws/common/Cargo.toml"
cp "$HERE/demo.rs" "$W/ws/demo/src/main.rs"
cp "$HERE/demo.toml" "$W/ws/demo/Cargo.toml"
cd "$W/ws" || exit 99
cargo build -q --offline -p demo > "$W/log" 2>&1 || { tail -40 "$W/log"; exit 98; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
