#!/bin/bash
# Builds the simulator runtime and the Rust simulation driver from /repo's current tree into build/.
set -e
cd "$(dirname "$0")/.."
V=$PWD
B=$V/build
mkdir -p "$B"
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export RUSTC_WRAPPER="$V/tools/rustc_wrap.sh" SIMRT_DIR="$B"
gcc -O2 -Wall -Wextra -fPIC -shared -o "$B/libsimrt.so.new" simrt/simrt.c -ldl -lpthread
mv "$B/libsimrt.so.new" "$B/libsimrt.so"
# cargo goes by time stamps; go by content as well
h=$(cat $(find ../repo/crates/unicode-intervals/src ../repo/crates/unicode-intervals/Cargo.toml ../repo/Cargo.toml tools/rustc_wrap.sh -type f | sort) | sha256sum)
if [ "$h" != "$(cat "$B/rust.hash" 2>/dev/null)" ]; then
    [ -d "$B/sim" ] && cargo clean --offline --manifest-path sim/Cargo.toml --target-dir "$B/sim" -p unicode-intervals -p simops -p simdrv >/dev/null 2>&1 || true
    [ -d "$B/sim/rel" ] && cargo clean --offline --manifest-path sim/Cargo.toml --target-dir "$B/sim" --profile rel -p unicode-intervals -p simops -p simdrv >/dev/null 2>&1 || true
    rm -f "$B/rust.hash"
fi
cargo build --offline --locked --manifest-path sim/Cargo.toml --target-dir "$B/sim" -p simdrv --profile rel "$@" >"$B/rel.log" 2>&1 &
cargo build --offline --locked --manifest-path sim/Cargo.toml --target-dir "$B/sim" -p simdrv "$@"
wait $! || { cat "$B/rel.log"; exit 1; }
echo "$h" > "$B/rust.hash"
