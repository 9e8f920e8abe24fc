export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS RUST_BACKTRACE CARGO_PROFILE_DEV_DEBUG
