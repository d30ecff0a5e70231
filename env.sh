export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.85.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$(dirname "${BASH_SOURCE[0]}")/target"; CARGO_TARGET_DIR="$(realpath -m "$CARGO_TARGET_DIR")"
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL
