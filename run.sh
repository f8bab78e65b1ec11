#!/bin/bash
# run.sh <property> [quick|thorough]: rebuild the harness against /repo's
# current working tree, with the verification hooks on, and run one check.
cd "$(dirname "$0")/harness" || exit 2
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg over_there_verif -Awarnings"
export CARGO_TARGET_DIR=/verif/target
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p /verif/out
if ! cargo build --offline --locked >/verif/out/build.log 2>&1; then
    tail -40 /verif/out/build.log
    echo "harness build failed" >&2
    exit 2
fi
[ "$1" = build ] && exit 0
ulimit -v unlimited
T=850; [ "${2:-$VERIF_TIER}" = thorough ] && T=10000
exec timeout -k 5 "${OTV_TIMEOUT:-$T}" /verif/target/debug/otv "$@"
