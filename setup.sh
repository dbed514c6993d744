#!/bin/bash
# Builds everything the checks need from the committed files and /repo's tree.
set -e
/verif/bld.sh
/verif/bldsan.sh thread
/verif/bldsan.sh address
. /verif/env.sh
F="--manifest-path /repo/Cargo.toml --target-dir /verif/build/repo --offline -q --config profile.dev.opt-level=2 --config profile.dev.debug=0 --config profile.dev.incremental=false"
cargo build $F -p tc_long_prop --bins
cargo rustc $F -p qcd-sme --lib --crate-type cdylib
