# Sourced. Same toolchain, profile and flags as /opt/vp/common.sh, so that the dependencies
# it built can be reused from a private copy (only an accelerator: without it cargo builds all).
export HOME=${HOME:-/root}
for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUST_BACKTRACE=0
export VERIF_ROOT=/verif
export CARGO_TARGET_DIR=/verif/build/target
seed_target() {
    [ -d /verif/build/target ] && return 0
    mkdir -p /verif/build
    [ -d /opt/vp/target ] || return 0
    rm -rf /verif/build/target.part
    if cp -a /opt/vp/target /verif/build/target.part; then
        mv /verif/build/target.part /verif/build/target
    else
        rm -rf /verif/build/target.part
    fi
}
