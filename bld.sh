#!/bin/bash
# Build the harness against /repo's working tree.  Cargo decides by mtime what is
# stale; a content hash makes sure nothing stale is ever monitored.
. /verif/env.sh
set -e
mkdir -p /verif/build
h=$(cd /repo && { find qcd-sme tc_long_prop Cargo.toml Cargo.lock -path '*/target' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
cd /verif/harness
export CARGO_TARGET_DIR=/verif/build/target
if [ "$(cat /verif/build/stamp 2>/dev/null)" != "$h" ]; then
    rm -f /verif/build/stamp
    cargo clean --release --offline -q -p qcd-sme -p tc_long_prop 2>/dev/null || true
fi
cargo build --release --offline -q "$@"
echo "$h" > /verif/build/stamp
