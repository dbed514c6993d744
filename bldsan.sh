#!/bin/bash
# bldsan.sh thread|address: the harness and the code under test, standard library
# included, instrumented by a sanitizer (nightly, -Zbuild-std).
san=$1
. /verif/env.sh
set -e
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
dir=/verif/build/$san
mkdir -p "$dir"
h=$(cd /repo && { find qcd-sme tc_long_prop Cargo.toml Cargo.lock -path '*/target' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
cd /verif/harness
export CARGO_TARGET_DIR=$dir RUSTFLAGS="-Zsanitizer=$san"
if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$h" ]; then
    rm -f "$dir/stamp"
    cargo clean --release --offline -q --target x86_64-unknown-linux-gnu -p qcd-sme -p tc_long_prop 2>/dev/null || true
fi
cargo build --offline -q -Zbuild-std --target x86_64-unknown-linux-gnu --release
echo "$h" > "$dir/stamp"
