#!/bin/bash
# Builds what the checks run: the contracts' release wasm from /repo's working tree (same commands
# and output folder as the project's own build) and the simulator; both at once.
# Whether the wasm is current is decided by content, never by file times.
set -eo pipefail
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS
REPO=/repo
HERE=$(cd "$(dirname "$0")/.." && pwd)
R=$REPO/target/wasm32-unknown-unknown/release
STAMP=$REPO/target/sim-stamp
mkdir -p "$REPO/target"
exec 9>"$REPO/target/.sim-lock"
flock 9

sim() { cd "$HERE/sim" && cargo build --offline --locked --release; }
sum() {
    cd $REPO
    { find contracts packages -type f ! -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
      sha256sum Cargo.toml Cargo.lock
      sha256sum $R/*.wasm 2>/dev/null || true; } | sha256sum
}
wasms() {
    cd $REPO
    if [ "$(sum)" = "$(cat $STAMP 2>/dev/null)" ]; then return 0; fi
    rm -f $STAMP $R/*.wasm
    if [ -d $R/.fingerprint ]; then
        find $R/.fingerprint -mindepth 1 -maxdepth 1 \( -name 'curve-????????????????' -o -name 'phoenix-*' \
            -o -name 'soroban-decimal-????????????????' -o -name 'soroban-token-contract-*' \) -exec rm -rf {} +
    fi
    for p in soroban-token-contract phoenix-stake-rewards phoenix-stake phoenix-pool phoenix-pool-stable \
             phoenix-factory phoenix-multihop phoenix-trader "phoenix-vesting --all-features"; do
        cargo build --offline --locked --release --target wasm32-unknown-unknown -p $p
    done
    sum > $STAMP
}

log=$(mktemp)
wasms >"$log" 2>&1 & a=$!
if ! sim >"$log.sim" 2>&1; then cat "$log.sim" >&2; wait; exit 2; fi
if ! wait $a; then cat "$log" >&2; rm -f "$log" "$log.sim"; exit 2; fi
rm -f "$log" "$log.sim"
