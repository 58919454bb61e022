#!/bin/bash
# Builds the simulator runtime, the Python seams and the instrumented extension module from /repo's current tree into build/.
set -e
cd "$(dirname "$0")/.."
V=$PWD
B=$V/build
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1 PYO3_PYTHON=/opt/vp/venv/bin/python
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export RUSTC_WRAPPER="$V/tools/rustc_wrap.sh"
gcc -O2 -Wall -Wextra -fPIC -shared -o "$B/libsimrt.so.new" simrt/simrt.c -ldl -lpthread
mv "$B/libsimrt.so.new" "$B/libsimrt.so"
gcc -O2 -Wall -Wextra -fPIC -shared -I/usr/include/python3.12 -o "$B/libsimpy.so.new" simpy/simpy.c -ldl
mv "$B/libsimpy.so.new" "$B/libsimpy.so"
h=$(cat $(find ../repo/crates/unicode-intervals/src ../repo/crates/unicode-intervals-py/src ../repo/crates/unicode-intervals/Cargo.toml ../repo/Cargo.toml tools/rustc_wrap.sh -type f | sort) | sha256sum)
if [ "$h" != "$(cat "$B/py.hash" 2>/dev/null)" ]; then
    [ -d "$B/py" ] && cargo clean --offline --manifest-path simpy/Cargo.toml --target-dir "$B/py" -p unicode-intervals -p unicode-intervals-py >/dev/null 2>&1 || true
    [ -d "$B/py/rel" ] && cargo clean --offline --manifest-path simpy/Cargo.toml --target-dir "$B/py" --profile rel -p unicode-intervals -p unicode-intervals-py >/dev/null 2>&1 || true
    rm -f "$B/py.hash"
fi
cargo build --offline --locked --manifest-path simpy/Cargo.toml --target-dir "$B/py" --profile rel "$@" >"$B/rel.log" 2>&1 &
cargo build --offline --locked --manifest-path simpy/Cargo.toml --target-dir "$B/py" "$@"
wait $! || { cat "$B/rel.log"; exit 1; }
echo "$h" > "$B/py.hash"
for x in pkg:debug pkg-rel:rel; do
    P=$B/${x%:*}
    rm -rf -- "$P/unicode_intervals"
    mkdir -p "$P/unicode_intervals"
    (cd ../repo/crates/unicode-intervals-py/python/unicode_intervals && for f in $(find . -name '*.py' -o -name '*.pyi'); do cp --parents "$f" "$P/unicode_intervals/"; done)
    cp "$B/py/${x#*:}/libunicode_intervals.so" "$P/unicode_intervals/unicode_intervals.abi3.so"
done
