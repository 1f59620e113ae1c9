#!/bin/bash
# run.sh check <property> | run.sh replay <file> | run.sh setup
# Builds the simulator (offline) and runs it against the working tree of /repo.
set -u
export PATH="/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS LD_PRELOAD
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
log="$VERIF_DIR/target/simcore-build.log"
mkdir -p "$VERIF_DIR/target"
if ! CARGO_TARGET_DIR="$VERIF_DIR/target/sim" cargo build --release --offline --locked --manifest-path "$VERIF_DIR/simcore/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    exit 2
fi
exec "$VERIF_DIR/target/sim/release/simctl" "$@"
