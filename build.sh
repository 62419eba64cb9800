#!/bin/bash
# Builds the simulator (and, with "lean", the feature-lean shared object) from /repo's working tree.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.99.1}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER
(cd sim && cargo build --offline -q --locked)
if [ "$1" = lean ]; then
  (cd lean && cargo build --offline -q --locked)
fi
