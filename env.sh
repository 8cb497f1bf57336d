# Toolchain and flags used by every build in /verif (same target CPU as /opt/vp/build.sh).
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu
export RUSTFLAGS=-Ctarget-cpu=x86-64-v3
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
