#!/bin/bash
# Runs demo.rs against the source in the current directory, from a scratch copy of it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
tar -C "$repo" --exclude=./target --exclude=./.git --exclude=./e2e --exclude=./docs --exclude=./testing -cf - . | tar -C "$s" -xf - || exit 2
mkdir -p "$s/tests" && cp "$here/h.rs" "$here/demo.rs" "$s/tests/" && rm -rf "$s/examples" || exit 2
mkdir "$s/tests/h" && mv "$s/tests/h.rs" "$s/tests/h/mod.rs"
cd "$s" && CARGO_TARGET_DIR="$repo/target" timeout 280 cargo test --offline --all-features --test demo -- --test-threads=1
