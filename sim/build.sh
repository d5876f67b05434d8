#!/bin/bash
# Builds the simulator against /repo's working tree, the preloaded shim and the
# real command-line tools.  Quiet unless it fails.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="${HOME:-/root}/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
out="${SIM_BUILD:-$here/.build}"
log="$out/build.log"
mkdir -p "$out"
cd "$here"
find /repo/crates/*/src -name "*.rs" -print0 | sort -z | xargs -0 cat >"$out/sources.txt"
if ! RUSTC_WRAPPER="$here/rustc-wrap.sh" cargo build --release --offline -p tofas-sim -p simshim --target-dir "$out/sim" >"$log" 2>&1; then
    cat "$log" >&2; exit 4
fi
if ! RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 \
     cargo build --offline --examples -p tofas_extras --manifest-path /repo/Cargo.toml \
     --target-dir "$out/tools" >"$log" 2>&1; then
    cat "$log" >&2; exit 4
fi
