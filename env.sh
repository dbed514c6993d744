# Build environment of the harness (no network, pinned toolchain).
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_TARGET_DIR
