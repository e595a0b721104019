export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="${root:-/verif}/target"
