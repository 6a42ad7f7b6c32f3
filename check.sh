#!/bin/bash
# usage: check.sh ID [quick|thorough]: rebuilds the checker against /repo's working tree and runs it.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
cd "$(dirname "$0")/mc" || exit 2
log=$(cargo build --offline --locked 2>&1) || { echo "$log" | tail -40; echo "build failed"; exit 2; }
if [ "$1" = build ] || [ "$1" = C21 ] || [ "$1" = node ]; then
    # The Node bindings, optimised as they are when published, and with checks for overflow off.
    log=$(CARGO_TARGET_DIR="$PWD/../target/node" CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
        cargo build --release --offline --locked --manifest-path /repo/Cargo.toml -p jinja-lsp-nodejs 2>&1) ||
        { echo "$log" | tail -40; echo "build failed"; exit 2; }
    cp ../target/node/release/libjinja_lsp_nodejs.so ../target/node/jinja.node.new &&
        mv ../target/node/jinja.node.new ../target/node/jinja.node || exit 2
fi
[ "$1" = build ] || [ "$1" = node ] && exit 0
exec ../target/debug/mc check "$@"
